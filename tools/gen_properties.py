#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line) from the table below.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
            **({'observe_at': observe} if observe else {}),
            hook_needed=None)))

PAR='pkg/parser/'; SG='pkg/renderer/sgml/'; TY='pkg/types/'
prop('C01','No document or configuration can crash a conversion',
 'Whatever the bytes of the document and of the files it includes, and whatever the attributes and settings given by the caller, a conversion ends by returning output or an error: it never panics (failed type assertion, index or slice out of range, nil dereference, division by zero, negative repeat count, explicit panic), neither in the calling goroutine nor in one it started.',
 ['inputs','configurations'],'all documents, included files, attribute values and backends',
 'The tests convert about two thousand chosen documents; the panicking shapes (an element list that happens to be empty, an attribute of another dynamic type, an end tag without a start tag, a zero column count) are exactly those nobody sampled, and a panic in a pipeline goroutine kills the host process.',
 [PAR,TY,SG,'pkg/validator/validator.go','pkg/configuration','libasciidoc.go','cmd/libasciidoc'],
 [('comma-ok assertions, type switches and length guards before every index or slice',PAR+'*.go, '+TY+'*.go, '+SG+'*.go'),('errors instead of panics for unexpected element types',SG+'elements.go')],
 observe=['process exit / recovered panic of Convert and ConvertFile'])
prop('C02','No failure is swallowed',
 'When reading the document or an included file, evaluating a directive, parsing a block, applying a substitution, executing a template or writing the output fails, the conversion returns an error; it never reports success for output that is truncated or lacks the content concerned.',
 ['inputs','fault_sequences'],'every failing read, parse, template execution or write, at every call site',
 'The tests use in-memory readers and writers that never fail and short lines; a dropped error or an unchecked scanner changes nothing they look at.',
 ['libasciidoc.go',PAR,TY,SG,'pkg/renderer/renderer.go','pkg/validator/validator.go'],
 [('error results returned or wrapped by every caller',PAR+'*.go, '+SG+'*.go'),('error fragments carried through the pipeline and returned by aggregation',PAR+'document_processing_*.go'),('scanner.Err after each scanning loop',PAR+'document_preprocessing.go')],
 observe=['error returned by Convert/ConvertFile'])
prop('C03','The parsing pipeline never deadlocks nor leaks goroutines',
 'Every conversion, successful or failed, returns, and all goroutines it started terminate: each stage stops sending once the consumer is gone, closes its output on every exit, and the stop signal is raised on every way out of the parsing.',
 ['schedules','inputs','fault_sequences'],'all interleavings of the pipeline goroutines, and all points at which a stage fails or stops early',
 'Tests with a few fragments fit in the channel buffers and run the happy schedule; a missing stop case or close only shows under an early exit with full buffers.',
 [PAR+'document_processing.go',PAR+'document_processing_*.go'],
 [('done channel closed by defer in the orchestrator',PAR+'document_processing.go'),('defer close of each output channel; sends select on done',PAR+'document_processing_*.go')],
 observe=['return of Convert','number of goroutines after Convert'])
prop('C04','Each parsed fragment goes through every stage exactly once, in order',
 'Between the block parser and the final document, every fragment is processed exactly once by each stage in source order and handed on to the next stage; none is skipped, duplicated or reordered, and a fragment that carries an error reaches the end unchanged without its content being processed.',
 ['inputs','schedules'],'every document (any number of fragments) and every failing fragment',
 'Stage tests feed one or two well-formed fragments; a loss on a rare branch (error, empty, unexpected type) or a stage applied twice needs whole-document reasoning.',
 [PAR+'document_processing.go',PAR+'document_processing_*.go'],
 [('stage loop: one receive, one send per iteration',PAR+'document_processing_*.go'),('early return of fragments whose Error is set',PAR+'document_processing_*.go')])
prop('C05','Concurrent conversions do not interfere',
 'Conversions running at the same time in one process, each with its own reader, writer and configuration, give the results each would give alone: the library keeps no mutable package-level state, changes no process-wide state (working directory, environment, logger level), and shares no unsynchronised mutable object between goroutines.',
 ['schedules','histories'],'all interleavings of any number of conversions, and of the stages of one conversion',
 'The suites convert documents one at a time; a race or a process-wide side effect needs a second conversion at a precise moment.',
 ['libasciidoc.go',PAR,TY,SG,'pkg/configuration','pkg/renderer'],
 [('package-level tables written only at initialisation','all packages'),('each stage gets its own parse context',PAR+'document_processing.go'),('include files opened by path',PAR+'document_preprocessing.go')])
prop('C06','Conversion output is deterministic',
 'For a given document, set of included files and configuration (including its last-updated time), the output bytes and the returned metadata are always the same: they depend neither on map iteration order, nor on memory addresses, the clock, randomness or the environment.',
 ['inputs','histories','schedules'],'all documents and all repeated runs',
 'A test runs a document once with few attributes, and an order dependence needs several attributes and several runs to show.',
 [PAR,TY,SG,'libasciidoc.go'],
 [('order-insensitive bodies of map iterations, sorted keys where order matters',TY+'attributes.go, '+PAR+'document_processing_apply_substitutions.go'),('text conversion of attribute values by content, not by address',TY+'attributes.go')])
prop('C07','A conversion leaves the caller\'s configuration untouched',
 'Converting a document does not modify the configuration, attribute map, macro table or stylesheet list supplied by the caller, so that nothing declared in one document can leak into the conversion of the next one with the same configuration.',
 ['histories','inputs'],'all sequences of conversions sharing one configuration',
 'Each test builds a fresh configuration for one conversion.',
 ['libasciidoc.go','pkg/configuration/configuration.go',SG+'context.go',SG+'sgml.go',PAR+'context.go','cmd/libasciidoc/root_cmd.go'],
 [('attributes copied into the parse and render contexts',PAR+'context.go, '+SG+'context.go')])
prop('C08','Attributes set by the caller win over those of the document',
 'An attribute given through the API or the command line keeps the caller\'s value during the whole conversion: a declaration, reset or front-matter entry in the document neither replaces nor removes it, in attribute references, conditionals and rendering alike.',
 ['inputs','configurations'],'all documents declaring or resetting attributes that the caller also set',
 'Few tests combine both sources, and none covers each reader of attributes.',
 [PAR+'context.go',PAR+'document_preprocessing.go',PAR+'document_processing_*.go',SG+'context.go',SG+'sgml.go',SG+'elements.go'],
 [('overrides consulted first when reading',PAR+'context.go'),('rendering attributes built from the same precedence',SG+'sgml.go, '+SG+'elements.go')])
prop('C09','Document text cannot break out of the markup it is placed in',
 'Text taken from the document or its attributes reaches the output HTML-escaped for the place it is put in: in element content `<`, `>` and `&` are escaped, and in attribute values the quote character too; only passthroughs, the text of string elements (which the grammar makes without these characters unless a substitution is disabled or {lt} and the like are used), and markup produced by rendering an element, are emitted verbatim. An ampersand within a URL may be kept.',
 ['inputs'],'all documents, with any characters in any text, target, role, id, language or attribute value',
 'The tests check benign values; an unescaped value needs a hostile character in the one field whose escaping is missing.',
 [SG+'*.go',SG+'html5/*.go',SG+'xhtml5/*.go',SG+'html_escape.go'],
 [('escaping functions applied before a value is given to a template',SG+'html_escape.go, '+SG+'element_id.go, '+SG+'link.go'),('special characters parsed as elements and rendered as entities',SG+'special_character.go')])
prop('C10','Every kind of element the parser produces can be rendered',
 'Every kind of element that parsing can put in a document, and every variant of it (block kind, list kind, quoted-text kind, symbol, special character, predefined attribute, backend name), has a rendering in each backend; a document is never refused, and no content is dropped, because its element has no renderer.',
 ['inputs'],'all documents: every element type and every variant constant',
 'Tests exercise elements in their usual containers; a missing case shows only for the one variant that reaches the default branch.',
 [SG+'elements.go',SG+'delimited_block.go',SG+'list.go',SG+'quoted_text.go',SG+'symbol.go',SG+'special_character.go',TY+'types.go',TY+'predefined_attributes.go','pkg/renderer/renderer.go'],
 [('type switch over elements',SG+'elements.go'),('kind switches and lookup tables',SG+'*.go')])
prop('C11','Templates of both backends are complete and fit the data they are given',
 'For each backend every output template is defined, parses, calls only functions that are registered, refers only to values that are supplied to it wherever it is executed, and is the template of the construct being rendered; rendering can therefore never fail or print a placeholder because of a template.',
 ['inputs','configurations'],'all templates of both backends, all execution sites, all conditional branches inside the templates',
 'Templates are parsed and resolved lazily at run time: a bad reference in a branch taken by no test stays invisible.',
 [SG+'templates.go',SG+'sgml_renderer.go',SG+'html5/*.go',SG+'xhtml5/*.go'],
 [('one lazily parsed accessor per template field',SG+'sgml_renderer.go'),('template tables',SG+'html5/templates.go, '+SG+'xhtml5/xhtml5.go')])
prop('C12','Emitted markup is well formed',
 'For every combination of present and absent values, the markup of each construct has properly nested and closed elements and well-formed, quoted attributes; with the XHTML backends every void element is self-closed and every attribute has a quoted value, so that the output is well-formed XML.',
 ['inputs','configurations'],'every template and literal markup fragment, every combination of its conditions, both syntaxes',
 'Tests cover a handful of the combinations of optional attributes per construct, and only a few for XHTML.',
 [SG+'html5/*.go',SG+'xhtml5/*.go',SG+'*.go'],
 [('template texts',SG+'html5/*.go, '+SG+'xhtml5/*.go'),('XHTML overrides of the HTML templates',SG+'xhtml5/xhtml5.go')])
prop('C13','The XHTML and HTML backends render the same content',
 'For every document the XHTML output carries the same elements, attributes and text as the HTML output: the two differ only in syntax (namespace, self-closing of void elements), never in what is displayed or omitted.',
 ['inputs'],'all documents; every construct and every combination of optional values',
 'The XHTML tests are a copied subset of the HTML ones; nothing compares the two for the same input.',
 [SG+'html5/*.go',SG+'xhtml5/*.go'],[('XHTML template overrides',SG+'xhtml5/xhtml5.go')])
prop('C14','Links generated within the document point at the anchors generated for them',
 'The target of every generated internal link (table of contents entry, cross reference, footnote reference and back reference) is spelled exactly as the identifier emitted for the corresponding element, including letter case and prefix.',
 ['inputs'],'all identifiers (any case and characters) and all kinds of internal links',
 'Tests use lower-case identifiers, for which any normalisation on one side only is invisible.',
 [SG+'html5/cross_reference.go',SG+'html5/section.go',SG+'html5/table_of_contents.go',SG+'html5/footnote_reference.go',SG+'cross_reference.go',SG+'footnote_reference.go',SG+'section.go',SG+'element_id.go'],
 [('same expression for id and href',SG+'html5/*.go'),('identifier registered in the references is the one rendered',TY+'types.go')])
prop('C15','Section identifiers are unique and registered under the rendered name',
 'No two sections without explicit identifier get the same generated one, however many titles coincide, and every section (and titled block with an identifier) can be referenced under exactly the identifier that is emitted for it.',
 ['inputs'],'all documents with any number of coinciding titles, and all referencable elements',
 'Tests have at most a few equal titles.',
 [TY+'types.go',PAR+'document_processing_aggregate.go'],
 [('probing for a free identifier before registering it',TY+'types.go (Section.ResolveID, WithUniqueID)'),('every referencable element registered while aggregating',PAR+'document_processing_aggregate.go')])
prop('C16','Every footnote is collected and numbered once, wherever it occurs',
 'A footnote written in any place that accepts inline text is replaced by a numbered reference and listed once at the end of the document; numbers are consecutive in order of appearance and a named footnote is defined once and reused.',
 ['inputs'],'all positions of a footnote in the element tree and all sequences of footnotes',
 'Tests place footnotes in a few containers; the containers are many and nested.',
 [TY+'types.go',PAR+'document_processing_collect_footnotes.go',SG+'footnote_reference.go'],
 [('containers substitute the footnotes of their inline content and descend into their children',TY+'types.go')])
prop('C17','The library only reads files it is meant to, and writes only to its writer',
 'A conversion opens files only for reading and only for the source file, include directives and embedded images; it never creates, writes, renames or deletes a file, opens a network connection, starts a process or ends the host process, and output goes exclusively to the writer supplied by the caller.',
 ['inputs','configurations'],'all documents and configurations',
 'A test cannot show the absence of an effect on inputs it does not run.',
 ['libasciidoc.go',PAR+'document_preprocessing.go',SG+'image.go','cmd/libasciidoc'],
 [('only three places open files','libasciidoc.go, '+PAR+'document_preprocessing.go, '+SG+'image.go')])
prop('C18','Files opened and state borrowed during a conversion are always given back',
 'Every file opened while converting is closed on every way out, including errors, and a lock taken is released on every way out.',
 ['fault_sequences','inputs'],'all paths, including each error exit after an acquisition',
 'A leaked descriptor or lock is invisible in a short test process.',
 ['libasciidoc.go',PAR+'document_preprocessing.go',PAR+'context.go','cmd/libasciidoc/root_cmd.go'],
 [('deferred close / unlock','libasciidoc.go, '+PAR+'document_preprocessing.go, '+PAR+'context.go')])
prop('C19','Conversion terminates',
 'Every conversion of a finite document ends: file inclusion is bounded even when files include themselves or one another, grammar repetition always consumes input, and no loop can run forever.',
 ['inputs'],'all documents, all include graphs (also cyclic), all grammar rules',
 'No test includes a file cyclically, and an empty repetition needs the one input that matches nothing.',
 [PAR+'document_preprocessing.go',PAR+'parser.peg',PAR+'parser.go',PAR+'context.go'],
 [('bound on inclusion depth',PAR+'document_preprocessing.go'),('non-empty bodies of repetitions in the grammar',PAR+'parser.peg')])
prop('C20','Content disabled by a conditional has no effect',
 'Lines between a conditional directive whose condition is false and its end are neither emitted nor interpreted: they do not declare or reset attributes, include files, or alter how the rest of the document is read, except for the nesting of conditionals.',
 ['inputs'],'all documents with conditionals, any nesting, any disabled content',
 'The tests put plain text in disabled branches.',
 [PAR+'document_preprocessing.go',TY+'types.go'],
 [('output builder disabled while a condition is false',PAR+'document_preprocessing.go')])
prop('C21','Inline syntax is interpreted only when its substitution is enabled',
 'In a block whose substitutions exclude a group (quotes, macros, attributes, replacements, post-replacements, special characters, callouts), the syntax of that group is left as literal text; each group is controlled by its own name only.',
 ['inputs','configurations'],'all blocks, all combinations of substitutions, all inline constructs',
 'Tests cover individual values of subs on a few constructs; the combinations times constructs are not enumerable.',
 [PAR+'parser.peg',PAR+'parser.go',PAR+'document_substitutions.go',PAR+'context.go'],
 [('grammar predicates testing the enabled substitution',PAR+'parser.peg'),('table from names to substitutions',PAR+'document_substitutions.go')])
prop('C22','Rendering an element does not depend on what was rendered before it',
 'The rendering state that says what an element is nested in (delimited block, list) is restored on every way out of the container, including errors, so that an element outside the container is rendered the same whether or not the container precedes it.',
 ['inputs','histories'],'all sequences and nestings of elements',
 'Tests render containers alone or followed by simple paragraphs.',
 [SG+'context.go',SG+'list.go',SG+'delimited_block_*.go'],
 [('save and deferred restore of the nesting flags',SG+'delimited_block_*.go, '+SG+'list.go')])
prop('C23','The command reports failure of any file and writes each result where asked',
 'The command exits with a non-zero status whenever any of the source files could not be read, converted or written completely, each output goes to the destination selected by the options, and the options of one file never affect another; attribute options keep their complete value.',
 ['inputs','configurations','fault_sequences'],'all argument lists, files and failures',
 'CLI tests run single successful conversions and a few argument errors.',
 ['cmd/libasciidoc/main.go','cmd/libasciidoc/root_cmd.go'],
 [('errors returned from the command function and mapped to the exit status','cmd/libasciidoc/root_cmd.go, cmd/libasciidoc/main.go')])
prop('C24','Comments never reach the output',
 'The text of a line comment or comment block, at any depth of nesting, is never part of the rendered output.',
 ['inputs'],'all documents with comments in any container',
 'Tests put comments at top level and in a few containers.',
 [PAR+'document_processing_filter_elements.go',TY+'types.go',SG+'elements.go'],
 [('filter stage removes comments recursively',PAR+'document_processing_filter_elements.go'),('no renderer emits comment content',SG+'*.go')])
prop('C25','Captions are numbered consecutively per kind',
 'Numbered captions of figures, tables and examples each use their own counter, incremented exactly once per captioned element of the kind, in document order, starting at 1 in every conversion.',
 ['inputs','histories'],'all documents with any mix of captioned elements, and repeated conversions',
 'Tests have one or two captioned elements of a single kind.',
 [SG+'context.go',SG+'image.go',SG+'table.go',SG+'delimited_block_example.go'],
 [('per-kind counters in the rendering context',SG+'context.go')])
prop('C26','A manual page that fails validation is reported and rendered as an article',
 'Every problem found while validating a document is reported, and when there is any the document is rendered as an article instead of being refused or rendered with the manual-page layout; a valid manual page keeps its layout.',
 ['inputs','configurations'],'all documents of all types',
 'Tests cover two invalid manual pages.',
 ['libasciidoc.go','pkg/validator/validator.go',SG+'sgml.go'],
 [('fallback of the document type when validation reports problems','libasciidoc.go')])
# --- properties that this family cannot decide (listed as not applicable)
prop('N01','Output agrees with the AsciiDoc language as Asciidoctor implements it',
 'For every document the rendered output equals, up to whitespace, the one Asciidoctor produces for the same input.',
 ['inputs'],'all documents','The reference implementation is not part of the tests; they hold hand-copied samples.',
 [PAR+'parser.peg',SG+'html5'],[('grammar and templates modelled after Asciidoctor',PAR+'parser.peg')])
prop('N02','No text of the document is lost or duplicated',
 'All text outside comments, directives and attribute lists appears exactly once in the output, in source order.',
 ['inputs'],'all documents','Tests sample documents.',
 [PAR,SG],[('pipeline and renderer',PAR)])
prop('N03','Conversion time grows moderately with the size of the document',
 'Conversion time and memory are bounded by a low-degree polynomial of the document size.',
 ['inputs'],'all documents','Tests use small documents.',
 [PAR+'parser.go'],[('memoisation switched per rule',PAR+'parser.go')])
prop('N04','Included line and tag selections contain exactly the selected lines',
 'An include directive with line ranges or tags inserts exactly the lines selected by them, in order.',
 ['inputs'],'all files, ranges and tag expressions','Tests sample a few ranges.',
 [PAR+'document_preprocessing.go',TY+'types.go'],[('range matching',TY+'types.go')])
prop('N05','Section numbers follow the section hierarchy',
 'With section numbering on, each numbered section gets its position among its siblings prefixed by the number of its parent.',
 ['inputs'],'all section trees','Tests sample a few trees.',
 [TY+'types.go',SG+'section.go'],[('section numbering',TY+'types.go')])
prop('N06','Lists nest as their markers and continuations say',
 'The nesting of list elements and of the blocks attached to them is the one defined by the markers, ancestor attachments and continuations.',
 ['inputs'],'all sequences of list elements','Tests sample sequences.',
 [PAR+'document_processing_arrange_lists.go'],[('list arrangement',PAR+'document_processing_arrange_lists.go')])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+'\n')
import sys
for p in P:
    assert len(p['title'])<=80, (p['id'], len(p['title']))
print(len(P))
