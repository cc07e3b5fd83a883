#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/properties.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, level, note, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(rec={"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
        technique=technique, level=level, note=note))

INSTR = "Build-time source rewriting of imports (sync, os, time, path/filepath, io/ioutil) into shims through go build -overlay; no change in /repo."

prop("C01", "Prose reaches the content tree verbatim, in order, exactly once",
 "Every character of prose in a document outside comments and structural delimiters appears in the loaded content exactly once and in source order, with the escapes for backslash and braces decoded and interpolation braces transparent. Blank lines separate paragraphs, the lines of a paragraph stay separate and in order, and leading line indentation is dropped. A document that is not in the grammar is rejected as a whole, never partially accepted.",
 ["inputs", "programs"], "all documents over the prose alphabet (letters, blanks, breaks, escapes, braces, multi-byte text) up to the bound, valid or not",
 "62 example documents cannot cover the combinations of escapes, breaks, braces and blanks; every document must be read faithfully.",
 ["ast/booklit.peg", "ast/booklit.peg.go", "stages/evaluate.go", "load/processor.go"],
 [("PEG grammar and actions", "ast/booklit.peg"), ("VisitString/VisitSequence/VisitParagraph", "stages/evaluate.go"), ("EvaluateFile", "load/processor.go")],
 ["Section.Body after load.Processor.LoadFile", "error returned by LoadFile"],
 "bounded-exhaustive enumeration of all token sequences as an explicit state space, each replayed on the real loader against an independent reference parser",
 "model_checking", "Complete for all token sequences up to the stated length over the stated alphabet; nothing is claimed about longer documents or characters outside it, except the enumerated size sweeps.")

prop("C02", "Comments are invisible, whatever they contain and wherever they stand",
 "A comment - multi-line, nested, or containing braces, backslashes and function calls - placed between words, lines or blocks (not directly after a call, where a brace opens an argument) contributes nothing to the document: no text of it reaches the content and no function in it is called. However many comments adjoin, the surrounding content is exactly what it is without them, up to blanks directly in front of a comment.",
 ["inputs", "programs"], "all token sequences mixing prose, comment delimiters, braces, calls and breaks up to the bound",
 "Four comment examples exist; nesting, adjacency with breaks, braces and arguments multiply combinatorially.",
 ["ast/booklit.peg", "ast/booklit.peg.go"], [("Comment, CommentSpacing and Word rules", "ast/booklit.peg")],
 ["Section.Body after LoadFile", "recorded plugin calls", "error returned by LoadFile"],
 "bounded-exhaustive enumeration of token sequences replayed on the real loader against an independent reference parser",
 "model_checking", "Complete up to the stated length over the stated alphabet.")

prop("C03", "Function calls receive exactly the arguments written, in every argument form",
 "A call's arguments reach the function in number, order and content exactly as written: a one-line argument as a line, a word-wrapped one joined by single spaces, a block argument (starting with a line break) as paragraphs, an empty one as empty content. Calls nest to any depth, and text after a call's last argument is ordinary text.",
 ["inputs", "programs"], "all token sequences of calls, braces, breaks, blanks and text up to the bound",
 "Tests use a handful of well-formed calls; nesting of forms and malformed calls is unbounded.",
 ["ast/booklit.peg", "ast/booklit.peg.go", "stages/evaluate.go"], [("Invoke, Arg, WrappedLine, ParaArg, Split rules", "ast/booklit.peg"), ("VisitInvoke/convert", "stages/evaluate.go")],
 ["arguments recorded by a plugin", "Section.Body after LoadFile"],
 "bounded-exhaustive enumeration of token sequences replayed on the real loader against an independent reference parser",
 "model_checking", "Complete up to the stated length over the stated alphabet, plus an enumerated sweep of nesting depth.")

prop("C04", "Preformatted and verbatim arguments preserve whitespace; verbatim is inert",
 "In double-brace arguments every line is kept as a line with its whitespace, minus the indentation of the block's own first line, while calls in it are still evaluated; in triple-brace arguments the text is kept the same way but nothing is interpreted (no escapes, comments or calls). This holds for each block independently of any other block before, after, around or inside it.",
 ["inputs", "programs"], "all sequences of block lines, indentations, nested and consecutive blocks up to the bound",
 "Tests use two or three blocks; the indentation state is shared between blocks so the property concerns histories of blocks.",
 ["ast/booklit.peg", "ast/booklit.peg.go", "stages/evaluate.go"], [("PreformattedBlock, VerbatimBlock, VerbatimLine, Indent rules", "ast/booklit.peg"), ("VisitPreformatted", "stages/evaluate.go")],
 ["Section.Body after LoadFile"],
 "bounded-exhaustive enumeration of token sequences and block programs replayed on the real loader against an independent reference parser",
 "model_checking", "Complete up to the stated bounds.", state=[("indent-skip", "indentation to drop in the current block", "ast/booklit.peg Indent")])

prop("C05", "Line-ending style never changes what a document means",
 "Converting any subset of a document's line breaks between LF and CRLF changes neither whether it loads nor the content it loads to. No carriage return of a line break ever reaches the content.",
 ["inputs", "programs"], "all documents up to the bound, times all assignments of LF/CRLF to their line breaks",
 "Tests convert three documents uniformly; mixed endings in every construct are not reached.",
 ["ast/booklit.peg", "ast/booklit.peg.go"], [("LineBreak rule and its uses", "ast/booklit.peg")],
 ["Section.Body and errors of LoadFile for both variants"],
 "exhaustive enumeration of documents and of all per-break ending assignments, differential on the real loader",
 "model_checking", "Complete up to the stated bounds; differential, so needs no expected value.")

prop("C06", "Every function call carries its own exact source location",
 "When a function runs, the location it is given (and any error about it) is the file, line, column and offset of that call's backslash in the source - including calls whose arguments contain other calls, calls after multi-byte text, comments, blocks or CRLF, calls in inline and included sections. References, targets, titles and inline sections defined by the call carry that location.",
 ["inputs", "programs"], "all call structures up to the bound, in all argument forms and positions",
 "No test looks at a location; they arise from parser position tracking and mutable per-section state overwritten by nested calls.",
 ["ast/booklit.peg", "ast/booklit.peg.go", "stages/evaluate.go", "baselit/plugin.go", "section.go", "load/processor.go"],
 [("Invoke action records c.pos", "ast/booklit.peg"), ("InvokeLocation set per call", "stages/evaluate.go VisitInvoke"), ("Location fields", "baselit/plugin.go")],
 ["Section.InvokeLocation during plugin calls", "Tag.Location, Reference errors, ErrorLocation of load errors"],
 "bounded-exhaustive enumeration of documents, locations compared with an independent reference parser's",
 "model_checking", "Complete up to the stated bounds.", state=[("Section.InvokeLocation", "location of the running call", "section.go")])

prop("C07", "Loading any bytes terminates with a document or a located parse error",
 "For every byte string, loading it as a document terminates without crashing and either yields a document or a parse error naming the file and a position inside it: line, column and offset agree with each other and lie within the text. The position is the furthest point up to which the text could still have been continued into a valid document.",
 ["inputs"], "all byte strings over an alphabet including control bytes and invalid UTF-8, up to the bound",
 "No test feeds a malformed document to the parser at all.",
 ["ast/booklit.peg.go", "ast/errors.go", "load/processor.go"], [("parser failure tracking", "ast/booklit.peg.go failAt"), ("UnpackError", "ast/errors.go"), ("ParseError construction", "load/processor.go")],
 ["error returned by LoadFile"],
 "bounded-exhaustive enumeration of byte strings on the real loader; furthest-failure position from an independent reference parser",
 "model_checking", "Complete up to the stated length; termination is observed within a generous per-document budget.")

prop("C08", "Calls dispatch to the right function, once, in order, with converted arguments",
 "Each call in a document invokes, exactly once and in document order (arguments before their call), the method of that name on the first plugin in use that has it, with every argument converted to the parameter's type; its returned content takes the call's place and a call that returns nothing leaves no trace. Unknown functions, wrong argument counts and errors returned by the function make the load fail with an error that identifies the function; parameter or return types that are not supported make it fail as well.",
 ["inputs", "programs"], "all combinations of method signatures, return shapes, plugin stacks, argument counts and forms in the bound",
 "Tests exercise four plugin methods; the signature space and evaluation order are open-ended.",
 ["stages/evaluate.go", "ast/node.go", "errors.go", "section.go"], [("VisitInvoke reflection dispatch", "stages/evaluate.go"), ("convert/evalArg", "stages/evaluate.go"), ("Method name mapping", "ast/node.go")],
 ["plugin call trace", "Section.Body", "errors of LoadFile"],
 "exhaustive enumeration of call programs over a menu of signatures, replayed on the real evaluator against a reference dispatcher",
 "model_checking", "Complete over the menu; other Go signatures are outside it.")

prop("C09", "No document crashes the tool",
 "Any document made of the built-in functions, however nested, loads and renders (to pages, search index and text) or fails with an ordinary error that describes the document's problem: it never panics, never surfaces an internal runtime fault and never exhausts the stack, also when sections include each other in a cycle. The same holds for printing the error to a terminal and as an error page, for documents nested up to a thousand deep.",
 ["inputs", "programs"], "all compositions of built-in functions and argument shapes up to the depth bound, and all include graphs up to the size bound",
 "Tests contain only sensible documents; crashes come from odd but easy to write combinations (functions without content as arguments, references in titles).",
 ["stages/evaluate.go", "baselit/plugin.go", "aux_.go", "reference.go", "render/html.go", "errors.go", "append.go"],
 [("nil-content handling", "stages/evaluate.go"), ("StripAux", "aux_.go"), ("Tag/Display", "reference.go")],
 ["panics, runtime-fault error texts, process death while loading/rendering/indexing/reporting"],
 "exhaustive enumeration of all function compositions to a depth on the real pipeline with crash capture",
 "model_checking", "Complete up to the depth bound over the full set of built-in functions and a menu of argument shapes.")

prop("C10", "Titles and tags are set once and exactly as specified",
 "A section's title is the content given to its only title call, and a second title is an error pointing at both calls. Its tags are exactly the explicit ones in order, the first being primary; without any, the single tag is the title's text without auxiliary content, lower-cased, with ' & ' read as ' and ', each run of blanks turned into a hyphen, and other characters than ASCII letters, digits, hyphens and underscores removed.",
 ["inputs", "programs"], "all titles over the alphabet up to the bound, all numbers of explicit tags, all positions and repetitions of the title call",
 "Tests use English titles only.",
 ["section.go", "baselit/plugin.go"], [("SetTitle/defaultTag", "section.go"), ("Title", "baselit/plugin.go")],
 ["Section.Title, Tags, PrimaryTag, page file name, title error"],
 "bounded-exhaustive enumeration of titles and tag lists on the real loader against a reference sanitizer",
 "model_checking", "Complete up to the stated bounds.")

prop("C11", "References resolve to the one matching tag anywhere in the tree, or fail loudly",
 "From any section, a reference finds every tag of that name in the whole section tree, each once: exactly one match resolves to it, none is an unknown-tag error suggesting exactly the similar tags of the tree, and several are an ambiguity error listing every definition. With broken references allowed the build never fails on a reference, correct references still resolve normally, and broken ones display as such.",
 ["programs", "configurations"], "all section trees up to the size bound, all placements of section tags and targets, all referring sections",
 "Tests look at three trees; completeness and uniqueness of the search depend on tree shape and the position of both ends.",
 ["reference.go", "section.go", "stages/collect.go"], [("Tag/resolve", "reference.go"), ("FindTag/filterTags/SimilarTags", "section.go")],
 ["rendered links", "render errors", "Section.FindTag/SimilarTags"],
 "exhaustive enumeration of section trees and tag placements on the real pipeline against a reference resolver",
 "model_checking", "Complete up to the stated tree size.")

prop("C12", "Generated links never dangle",
 "In a successful build, every link generated for a reference or a table-of-contents entry leads to a page that the same build wrote and, when it has a fragment, to an element with that id on that page, and that location is the tag's own section or anchor. This holds for every combination of split and single-page sections and any tag name (of pages: any that is a file name).",
 ["programs", "configurations"], "all section trees up to the bound with all split/single-page assignments, all targets, both rendering engines, tag names with special characters",
 "Page ownership, anchors, file names and URLs are computed in different places; tests check a few literal outputs.",
 ["render/common.go", "render/writer.go", "render/html.go", "render/text.go", "baselit/plugin.go"], [("sectionURL/sectionPageOwner", "render/common.go"), ("WriteSection", "render/writer.go"), ("templates", "render/html/*.tmpl")],
 ["hrefs and ids in written pages"],
 "exhaustive enumeration of section trees and split assignments; closed-loop link resolution on the real output",
 "model_checking", "Complete up to the stated tree size. Targets placed where no template renders them (e.g. unrendered partials) are outside.")

prop("C13", "Every section is rendered exactly once, on the page its split settings dictate",
 "A build writes one page for the root and one for each section whose parent splits its sections, named by primary tag, and nothing else; every section's title and body are rendered exactly once, on the page of its nearest such ancestor, in document order. A single-page declaration, wherever it stands in a section, overrules every split declaration in that section and below.",
 ["programs", "configurations"], "all section trees up to the bound, all assignments, orders and positions of split and single-page declarations",
 "Tests cover four trees with one fixed declaration order.",
 ["render/writer.go", "baselit/plugin.go", "section.go", "render/common.go"], [("WriteSection", "render/writer.go"), ("SplitSections/SinglePage", "baselit/plugin.go"), ("section.tmpl", "render/html/section.tmpl")],
 ["set of written files and their text"],
 "exhaustive enumeration of section trees and declaration orders on the real pipeline against a reference page model",
 "model_checking", "Complete up to the stated tree size.")

prop("C14", "Numbering, heading depth, tables of contents and navigation agree with the tree",
 "Section numbers are the path of 1-based positions, unique in the tree; headings have the depth within their page (resetting below a split-declaring section, also under single-page), capped at 6. A table of contents lists exactly the descendants in order with their numbers, honouring omission, and next/previous, depth, top and containment follow the tree as documented.",
 ["programs", "configurations"], "all section trees up to the bound with all split, single-page and omission flags; sweeps over width and depth beyond it",
 "Navigation methods have no test at all; numbering is tested on two trees.",
 ["section.go", "render/html.go", "toc.go"], [("Number/Depth/PageDepth/Prev/Next/Top/Contains", "section.go"), ("headerDepth", "render/html.go"), ("toc.tmpl", "render/html/toc.tmpl")],
 ["Section methods", "headings, numbers and TOC in rendered pages"],
 "exhaustive enumeration of section trees and flags on the real pipeline against a reference tree model",
 "model_checking", "Complete up to the stated tree size, plus exhaustive width/depth sweeps.")

prop("C15", "The search index covers every tag and agrees with the rendered site",
 "The search index has exactly one entry per tag of the tree: its location is the same page and fragment that references to the tag link to, its title is the tag's title, its text is the tag's own content or else its section's body text, and depth and section tag are those of the section. The file is valid JSON whatever characters the content contains.",
 ["programs", "configurations"], "all section trees and target placements up to the bound, all content kinds, tag and text alphabets",
 "Three example indexes; agreement with links for all trees and split settings is not tested.",
 ["render/writer.go", "render/common.go"], [("WriteSearchIndex/loadTags", "render/writer.go")],
 ["search index file", "hrefs in pages"],
 "exhaustive enumeration of section trees on the real pipeline against a reference index and the rendered links",
 "model_checking", "Complete up to the stated tree size, for trees with unique tag names.")

prop("C16", "Document text can never alter the markup of generated HTML",
 "Whatever characters prose, titles, tags, link targets, image paths and descriptions, list and table items contain, they appear in the HTML pages (and in error pages) as text or attribute values only: decoding a page yields exactly the original characters and the same element structure as for harmless text. Link targets never become script URLs.",
 ["inputs"], "all strings over a hostile alphabet up to the bound in every position where document text is rendered",
 "Tests contain no markup-significant characters in outputs.",
 ["render/html.go", "errors.go", "render/html/*.tmpl"], [("html/template contextual escaping and the render function", "render/html.go"), ("error/annotate template functions", "errors.go")],
 ["parsed HTML of pages and error pages"],
 "bounded-exhaustive enumeration of strings and positions, output parsed back by an HTML5 parser",
 "model_checking", "Complete up to the stated string length; raw-html styled content is the explicit, excluded exception.")

prop("C17", "Auxiliary content is shown in place and stripped everywhere it should be",
 "Content marked auxiliary is rendered where it is written, and stripping removes exactly it: in tables of contents, in references' display and in default tags no auxiliary content remains at any nesting depth, and all other content remains unchanged and in order. Stripping never alters the original content.",
 ["inputs", "programs"], "all content trees up to the depth bound over every content type with auxiliary content at any position",
 "One test has auxiliary text directly inside a title; nested positions are not reached.",
 ["aux_.go", "section.go", "render/html.go"], [("StripAux visitor", "aux_.go")],
 ["StripAux result", "TOC and reference links in pages"],
 "exhaustive enumeration of content trees on the real function against a reference stripper; end-to-end on documents",
 "model_checking", "Complete up to the depth bound. Deferred (lazy) content and whole sections are opaque by design.")

prop("C18", "Targets are found wherever they appear in content",
 "A target anywhere in a section's title, body or partials - inside any nesting of paragraphs, styles, style partials, lists, tables, definitions, links and preformatted text - becomes exactly one anchored tag of exactly that section, with its title, content and location, in the order title, body, partials by name, each in document order. Nothing else adds tags, and collection leaves the content unchanged.",
 ["inputs", "programs"], "all content trees up to the depth bound over every content type with targets at any position",
 "Tests place targets in paragraphs and one partial only.",
 ["stages/collect.go", "target.go", "section.go"], [("Collect visitor", "stages/collect.go"), ("SetTagAnchored", "section.go")],
 ["Section.Tags after load"],
 "exhaustive enumeration of content trees on the real collector against a reference traversal",
 "model_checking", "Complete up to the depth bound. Deferred content and reference display are not collected by design.")

prop("C19", "Composing content never loses, reorders or aliases it",
 "Appending content yields all pieces in order, skipping absent ones, and leaves every previously obtained content value unchanged, so content returned by plugins can be reused in several places. A paragraph is flow text unless its only content is a block, in which case the block stands by itself; flow/block classification follows the content.",
 ["inputs", "histories"], "all sequences of append operations over shared values up to the bound; all documents reusing stored content",
 "Tests never reuse a content value, nor append more than one at a time.",
 ["append.go", "sequence.go", "stages/evaluate.go", "paragraph.go", "styled.go"], [("Append", "append.go"), ("VisitParagraph", "stages/evaluate.go"), ("IsFlow methods", "sequence.go, styled.go, ...")],
 ["Append results and operands", "Section.Body"],
 "exhaustive exploration of operation histories on shared values against an immutable reference",
 "model_checking", "Complete up to the history length.")

prop("C20", "Deferred content is computed once and everyone sees the same result",
 "However many renderers ask for a deferred content, and from however many threads, its function runs exactly once, every asker gets that run's content or error, and none observes it before it is complete.",
 ["schedules", "histories"], "all interleavings of up to three askers, with succeeding, failing and panicking functions",
 "No test forces deferred content, let alone concurrently.",
 ["lazy.go", "render/html.go", "render/text.go"], [("sync.Once in Force", "lazy.go")],
 ["results of Force and of rendering"],
 "stateless model checking of the real code under a controlled scheduler with preemption bounding, plus race detection in every explored schedule",
 "model_checking", "Complete for the harnesses and preemption bound reported.", hook=INSTR)

prop("C21", "A long-lived server answers as a fresh one would",
 "After any history of document and template edits (including edits that break the document, restore older file times, add or delete files) and requests, the development server's answer to a request - status and body - is the one a newly started server would give for the current files. A failed request never changes later answers.",
 ["histories"], "all histories of edits and requests up to the length bound over the event alphabet",
 "The server has no tests; cache staleness needs multi-step histories.",
 ["booklitcmd/server.go", "load/processor.go", "render/html.go"], [("parsed-document cache", "load/processor.go"), ("template reload", "render/html.go LoadTemplates"), ("ServeHTTP", "booklitcmd/server.go")],
 ["HTTP responses"],
 "explicit exploration of all event histories on the real server, differential against a fresh server",
 "model_checking", "Complete up to the history length; edits that leave a file's modification time identical are outside (undetectable by design).",
 state=[("Processor.parsed", "parse cache by path", "load/processor.go"), ("HTMLEngine.tmplModTimes", "template cache", "render/html.go")])

prop("C22", "Concurrent requests do not interfere",
 "For every interleaving of concurrent requests and file edits, every response is complete and is one the server could give sequentially: each document and template it reflects is a version that was current at some moment during that request. There is no data race and no deadlock.",
 ["schedules"], "all interleavings, up to the preemption bound, of two or three requests (same page, different pages, failing pages) and an editor",
 "Nothing in the test suite is concurrent.",
 ["booklitcmd/server.go", "load/processor.go", "render/html.go"], [("buildLock", "booklitcmd/server.go"), ("parsedL", "load/processor.go")],
 ["HTTP responses", "race reports", "blocked threads"],
 "stateless model checking of the real server under a controlled scheduler (preemption bounded), with happens-before race detection in every explored schedule",
 "model_checking", "Complete for the harnesses and preemption bounds reported.", hook=INSTR)

prop("C23", "Template directories are always reflected exactly",
 "Loading templates repeatedly from a changing directory always yields the engine a fresh load would: after every change of any template file (new, edited, deleted, replaced by an older copy) subsequent rendering uses exactly the current files plus the built-ins, and a directory with an invalid template keeps failing until it is repaired. Both rendering engines behave this way.",
 ["histories"], "all histories of template edits and loads up to the length bound, both engines",
 "Tests load a fixed directory once.",
 ["render/html.go", "render/text.go"], [("LoadTemplates/resetTmpl", "render/html.go, render/text.go")],
 ["LoadTemplates errors and rendered output"],
 "explicit exploration of all event histories on the real engines, differential against a fresh engine",
 "model_checking", "Complete up to the history length; edits that leave the modification time identical are outside.",
 state=[("tmplModTimes", "template modification times", "render/html.go, render/text.go")])

prop("C24", "A build that reports success has written everything; failures are reported",
 "If any file operation fails at any point of a build (reading documents or templates, creating, writing or closing outputs), the build reports an error unless all outputs are nevertheless complete and correct. If one fails during a server request, the response is an error unless it is nevertheless complete and correct, and later requests are unaffected. No file handle stays open after a build or request.",
 ["fault_sequences", "crash_points"], "every single fault, every pair of faults, and every point from which on all operations fail, over all file operations of representative builds and requests",
 "No test injects an I/O fault.",
 ["render/writer.go", "load/processor.go", "booklitcmd/command.go", "booklitcmd/server.go", "render/html.go"], [("error propagation and closes", "render/writer.go, load/processor.go")],
 ["result of Command.Build", "output files", "HTTP responses", "open handles"],
 "exhaustive fault enumeration at every file-operation point of the real code",
 "fault_enumeration", "Complete for the scenarios listed: every operation and fault kind, singly and in pairs (thorough: triples). Failures are injected at the boundary of os, io/ioutil and path/filepath; those packages themselves are trusted.", hook=INSTR)

prop("C25", "The same inputs always produce the same result",
 "Two builds of the same sources and templates produce byte-identical pages, search index and error messages: no output depends on hash-map iteration order or on what was loaded before in the same process. Tags, anchors and error listings come in a fixed order.",
 ["schedules", "inputs"], "all hash-map iteration orders at every iteration point, for a family of documents using every map-valued feature",
 "A test run samples one iteration order and compares with loosely matched expectations.",
 ["stages/collect.go", "section.go", "render/writer.go", "aux_.go", "render/html.go"], [("ordering of partials", "stages/collect.go"), ("tag order", "section.go")],
 ["pages, search index, Section.Tags, errors"],
 "exhaustive exploration of map-iteration nondeterminism through a controlled runtime",
 "model_checking", "Complete for the runtime's possible iteration offsets of maps with up to 8 entries, one deviating iteration at a time and uniformly.", hook="Go runtime map iterator start offset supplied by the harness (overlay on GOROOT/src/internal/runtime/maps at check build time).")

prop("C26", "Error reports show the right place and never fail",
 "For every error with a location, the terminal report and the HTML error page name the right file and line, quote exactly that source line and mark exactly the offending columns, whatever the line contains (multi-byte text, very long lines, markup, CRLF, last line, line end). A report on an error that a function returned also shows that error's own report, completely and in the same place. Producing a report never fails or panics, and the HTML report quotes text escaped.",
 ["inputs", "configurations"], "all error kinds, times line shapes, positions in the line and file shapes in the bound",
 "Tests only compare error values; no report is ever produced by them.",
 ["errors.go", "errhtml", "ast/errors.go"], [("AnnotateLocation/AnnotatedHTML/lineInQuestion", "errors.go")],
 ["PrettyPrint output", "ErrorResponse body"],
 "bounded-exhaustive enumeration of error sites and source lines on the real reporters against a reference annotator",
 "model_checking", "Complete over the stated line shapes and positions.")

prop("C27", "Including a file is equivalent to writing its section inline",
 "Moving any inline section into its own file and including it from there, at any depth and in any directory, yields the same site: same pages, text, numbers, links, tags and index. Included paths are relative to the including file, also from inline sections of included files.",
 ["programs", "configurations"], "all section trees up to the bound, all subsets of sections moved to files, all directory placements in the bound",
 "Two tests include a file from one directory level.",
 ["baselit/plugin.go", "load/processor.go", "section.go"], [("IncludeSection", "baselit/plugin.go"), ("FilePath", "section.go"), ("EvaluateFile", "load/processor.go")],
 ["written site"],
 "exhaustive enumeration of trees and file assignments, differential on the real pipeline",
 "model_checking", "Complete up to the stated bounds, for sections using only built-in functions.")

prop("C28", "Plugins, styles and partials are scoped to their section as documented",
 "A plugin is available from its use onward in that section and in inline sections defined after it, at any depth; it is not available in included files, siblings or parents, and each section gets its own plugin instance. A section's style, partials, omission flag and title affect that section alone.",
 ["programs"], "all trees of inline and included sections up to the bound with plugin uses and calls at every position",
 "Tests use plugins in the top-level section only.",
 ["baselit/plugin.go", "section.go", "load/processor.go"], [("UsePlugin", "section.go"), ("Section/IncludeSection plugin factories", "baselit/plugin.go")],
 ["load errors", "plugin instances recorded", "rendered styles and partials"],
 "exhaustive enumeration of section programs on the real pipeline against a reference scoping model",
 "model_checking", "Complete up to the stated program size.")

prop("C29", "Option selection builds exactly what was asked; serving equals building",
 "For every combination of options, the build renders exactly the selected section (whole document, tagged section, or extra section attached to the document) with the selected engine to the selected place, and fails when the selection does not exist. A page requested from the server is byte-identical to the file a build writes for it; unknown paths fall through to static files.",
 ["configurations"], "all combinations of selection, engine, templates, output and index options over a family of documents; all paths requested",
 "The command package is not tested.",
 ["booklitcmd/command.go", "booklitcmd/server.go", "render/writer.go"], [("Build", "booklitcmd/command.go"), ("loadRequestedSection", "booklitcmd/server.go")],
 ["files written, stdout, result of Build", "HTTP responses"],
 "exhaustive enumeration of option combinations on the real command against a reference selection model; differential serve/build",
 "model_checking", "Complete over the option menu and document family.")

prop("C30", "Slow-call monitoring only observes",
 "With any slow-call threshold and any timing of calls, documents evaluate to the same result and errors, and evaluation never deadlocks with its monitors. Every call that runs past the threshold is warned about, wherever it is written (inside arguments, sections or included files). A still-running warning is only ever given for a call that is running, and no warning is pending after evaluation ends.",
 ["schedules"], "all firing times of the monitors relative to nested, failing and panicking calls, two concurrent loads, up to the preemption bound",
 "Tests never set a threshold.",
 ["stages/evaluate.go", "load/processor.go"], [("time.AfterFunc and complainL in VisitInvoke", "stages/evaluate.go")],
 ["load result", "log records", "pending timers"],
 "stateless model checking of the real evaluator with timers as schedulable threads",
 "model_checking", "Complete for the harnesses and preemption bounds reported.", hook=INSTR)

prop("C31", "Syntax highlighting preserves the code text",
 "Highlighted code shows exactly the code given, character for character, for every text and every language name including unknown ones, as escaped text inside markup; transformers replace exactly their non-overlapping matches, in order, and nothing else.",
 ["inputs"], "all code strings over the alphabet up to the bound, for several lexers including the Booklit one, inline and block; all transformer pattern/text combinations in the bound",
 "The plugin has no tests.",
 ["chroma/plugin.go", "chroma/booklit_lexer.go"], [("SyntaxTransform/TransformAll", "chroma/plugin.go"), ("Booklit lexer", "chroma/booklit_lexer.go")],
 ["content returned by the plugin, rendered"],
 "bounded-exhaustive enumeration of code strings and transformers against identity",
 "model_checking", "Complete up to the stated length.")

prop("C32", "Rendering emits every content in order, by the template its kind selects",
 "Rendering any content tree emits every piece of it exactly once and in order, through the template for its kind or style - a user template overriding the built-in one - and a styled page or section uses its own templates with the documented fallback. A content whose template does not exist is an error, never silently dropped.",
 ["inputs", "configurations"], "all content trees up to the depth bound over every content type, with and without overriding templates, both engines",
 "Tests cover each type in one position, with the HTML engine only.",
 ["render/html.go", "render/text.go"], [("Visit methods, setTmpl, subRender, RenderSection", "render/html.go, render/text.go")],
 ["rendered output"],
 "exhaustive enumeration of content trees on the real engines against a reference renderer",
 "model_checking", "Complete up to the depth bound.")

prop("C33", "Template functions give templates what they document",
 "In user templates of either engine, url (and htmlURL) give the link to the page and anchor where the tag is rendered, for every section tree and tag name; rawHTML inserts exactly the text given, rawURL an attribute that leads to exactly the URL given, joinLines exactly the text with the prefix after every line break; stripAux, render, headerDepth and walkContext show every section of the tree with its own title, heading level and place relative to the current one.",
 ["inputs"], "all section trees with split settings and anchors up to the bound, all pairs of unusual tag names, all texts over the alphabet up to the bound, both engines",
 "Tests use the built-in templates; most functions are only called by users' templates.",
 ["render/html.go", "render/text.go", "render/common.go"], [("HTMLFuncs", "render/html.go"), ("TextFuncs", "render/text.go"), ("sectionURL, WalkContext", "render/common.go")],
 ["rendered output of templates that show what the functions give"],
 "exhaustive enumeration of section trees and texts on the real engines against the reference section model",
 "model_checking", "Complete up to the stated bounds.")

prop("C34", "Built-in functions do exactly what they document",
 "Every built-in function, called with any documented number of arguments of any content, yields exactly the content it documents, built from all its arguments in order, or has exactly its documented effect on its own section; every other call (too few or too many arguments, rows and definitions that are not lists of the right size, unknown plugins, missing or recursive files, a second title) fails with an error at the call. Calls never affect each other's content, and effects of several calls combine as if made one after the other.",
 ["inputs"], "every function with all lists of arguments up to the bound, in several contexts; all sequences of calls with effects up to the bound; all pairs of included paths",
 "Tests call most functions once with ordinary arguments.",
 ["baselit/plugin.go", "stages/evaluate.go"], [("Plugin's methods", "baselit/plugin.go")],
 ["content, sections and error of the load"],
 "exhaustive enumeration of calls on the real evaluator against a reference evaluator",
 "model_checking", "Complete up to the stated number and kinds of arguments.")

prop("C35", "Rebuilding with plugins is transparent",
 "With --plugin, booklit builds a tool that has exactly the given plugins, runs it once with exactly its own arguments, environment and working directory, and passes on its output and exit code - and nothing else: the document is not built without the plugins, a failure to build or run the tool is reported, nothing is left behind in the temporary directory, and the rebuilt tool does not rebuild itself. The pages are those of a build that has the plugins.",
 ["configurations", "fault_sequences"], "all combinations of plugin lists, arguments, outputs and exit codes of the tool, and ways in which the go command fails; documents with real plugins built by the real go command",
 "The command package is not tested.",
 ["booklitcmd/command.go", "booklitcmd/main.go"], [("reexec", "booklitcmd/command.go"), ("Main", "booklitcmd/main.go")],
 ["calls of go and of the tool: arguments, environment, source", "output, exit code, files left"],
 "exhaustive enumeration of command lines and of the behaviour of the go command and the tool, with recording stand-ins, on the real command as a process",
 "model_checking", "Complete over the menu of command lines, behaviours and failures.")

NOT_APPLICABLE = []
CLAIMED = os.environ.get("CLAIMED")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
    claimed = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
    checks, na = [], []
    for p in P:
        i = p["rec"]["id"]
        if i in claimed:
            checks.append({"property": i, "quick_cmd": f"bash ./check {i} quick", "thorough_cmd": f"bash ./check {i} thorough",
                "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash ./setup",
         "hooks": {"guard": "none: /repo carries no hooks", "enable": "checks that need scheduling, fault or time control rewrite imports of the current sources into shims at build time (go build -overlay, see DESIGN.md)", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Known findings: known-findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
