import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/"+w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("P01","A run that reports an error exits with a failure status",
  "Whenever quickbook prints an error-severity diagnostic, on whatever path and at whatever depth of inclusion, the run ends with a non-zero exit status (in the expect-errors testing mode: a run with no error ends with a non-zero status). No error is reported without being counted, no counted error is dropped on its way to the exit status, and an exception that aborts the conversion also ends in a failure status.",
  ["inputs","programs"],"every document and option combination, every error-reporting site and every path from it to the end of the process",
  "Tests run a handful of failing documents; the guarantee is about each of ~80 error sites and every call chain between them and main, most of which no test reaches.",
  ["actions.cpp","bb2html.cpp","code_snippet.cpp","doc_info_actions.cpp","include_paths.cpp","main_grammar.cpp","quickbook.cpp","state.cpp"],
  [("error diagnostics and error counters paired at each site","actions.cpp:285"),("per-stage error counts returned to the caller","code_snippet.cpp:367"),("count turned into a result, exceptions into failure","quickbook.cpp:179"),("exit status of the process","quickbook.cpp:758")],
  [("error count","number of errors reported so far in a stage","state.hpp:53")],["process exit status","stderr"])
p("P02","A failed write of an output file is never silent",
  "If any file that quickbook generates (the converted document, an HTML page, the dependency lists) cannot be opened, or any part of its content including what is still buffered cannot be written, the run reports an error and exits with a failure status.",
  ["fault_sequences","configurations"],"every generated file and every point at which opening, writing, flushing or closing it can fail",
  "The tests never make the file system fail; a missing check or a check made before the buffer is flushed only shows with a full disk or an unwritable directory at the right moment.",
  ["quickbook.cpp","bb2html.cpp","dependency_tracker.cpp"],
  [("stream state tested after the data has been written out","quickbook.cpp:200"),("page writer reports open and write failure","bb2html.cpp:690"),("dependency file stream checks","dependency_tracker.cpp:75")],
  None,["process exit status","generated files"])
p("P03","Document text reaches the output markup only in escaped form",
  "Text that originates in the source document, in a macro, identifier, title, link target or attribute, or in an included file is written to the generated BoostBook/HTML only after markup escaping, whether it ends up in element content or in an attribute value. The only unescaped text is the tool's own markup, text already converted, and text the author marked as raw markup ('''...''', also when it is the content of a template called in escaped form); in documents of versions before 1.6 the document information block is raw by definition.",
  ["inputs"],"every document text and every place in the converter that emits output",
  "Tests compare a few documents; a single unescaped insertion is only visible when the text at that very place contains a special character.",
  ["actions.cpp","utils.cpp","doc_info_actions.cpp","bb2html.cpp","html_printer.cpp","syntax_highlight.cpp","id_xml.cpp","values.cpp"],
  [("escaping printers","utils.cpp:20"),("encoded versus source value accessors","values.cpp:200"),("attribute printer that encodes","html_printer.cpp:25")],
  None,["generated markup"])
p("P04","Generated markup is well nested on every path",
  "For every construct of the language, on every path through its conversion that runs to completion, each element the converter opens it also closes, in matching order, and each tag and attribute it begins it finishes, so that the BoostBook and HTML output is well formed whenever the raw markup the author supplied is.",
  ["inputs","programs"],"every construct, every combination of its optional parts (title, id, attributes, empty or non-empty body, language version)",
  "Whether a closing tag is emitted depends on combinations of optional parts; tests exercise few combinations, and golden-file comparison has to have been written for exactly that combination.",
  ["actions.cpp","bb2html.cpp","doc_info_actions.cpp","markups.cpp","html_printer.cpp","state.cpp","syntax_highlight.cpp","document_state.cpp"],
  [("pre/post markup table","markups.cpp:25"),("tag printers","html_printer.cpp:10"),("section open/close","actions.cpp:1180"),("list open/close","state.cpp:120")],
  None,["generated markup"])
p("P05","Parsing always makes progress",
  "Every repetition used while parsing or scanning text (document grammar, document-info grammar, code highlighters, snippet scanner, markup reader, post-processor, glob matcher) consumes input on each round or stops, and no rule can invoke itself without first consuming input, so no document makes the tool loop forever at one position.",
  ["inputs"],"every input text and every repetition and recursive rule of the grammars and hand-written scanners",
  "A test that exercises a loop that cannot progress does not fail, it hangs, and it needs the one input that reaches an empty iteration; tests cover only inputs that terminate.",
  ["main_grammar.cpp","block_element_grammar.cpp","phrase_element_grammar.cpp","doc_info_grammar.cpp","code_snippet.cpp","syntax_highlight.cpp","post_process.cpp","xml_parse.cpp","glob.cpp","utils.cpp","quickbook.cpp"],
  [("grammar definitions","main_grammar.cpp:300"),("scanner loops","xml_parse.cpp:60")],None,["termination"])
p("P06","Recursion through templates and included files is depth-bounded",
  "A template that expands itself, directly or through other templates, and a document that includes itself, directly or through other documents, is stopped with a reported error at a fixed nesting depth instead of nesting until the stack is exhausted, and the nesting depth is counted back down when each expansion or inclusion ends.",
  ["inputs","programs"],"every document, every call cycle by which converting a piece of document text starts the conversion of another piece named by the text",
  "The bound matters only for cyclic documents, of which there are infinitely many shapes; no test includes a cyclic inclusion.",
  ["actions.cpp","state.cpp","state_save.hpp","document_state.cpp"],
  [("template depth guard","actions.cpp:1460"),("depth saved and restored","state.cpp:140")],
  [("template depth","current template nesting","state.hpp:60")],["diagnostics","process survival"])
p("P07","Scanners never look past the end of the text",
  "No hand-written scan over document text, markup, identifiers, glob patterns, paths or command-line text reads a character at or beyond the end of the text it was given, whatever the text (including empty, truncated and unterminated text).",
  ["inputs"],"every input text and every character read in the hand-written scanners",
  "A read one past the end usually returns some byte and goes unnoticed, so tests pass even when they reach it; the guarantee is about all truncation points of all texts.",
  ["xml_parse.cpp","post_process.cpp","glob.cpp","utils.cpp","id_generation.cpp","files.cpp","quickbook.cpp","code_snippet.cpp","path.cpp","bb2html.cpp","actions.cpp","collector.cpp","values.cpp","include_paths.cpp","native_text.cpp"],
  [("end test before each read","xml_parse.cpp:70")],None,["memory safety"])
p("P08","A lookup that found nothing is never used as if it had found something",
  "Wherever the tool looks something up (an id, a template, a macro, a tag, an optional attribute, a position in a string, a parent or a sibling) the result is used only on paths on which the lookup is known to have succeeded.",
  ["inputs","programs"],"every lookup site and every path from it to a use of the result",
  "Failing lookups correspond to malformed or unusual documents; each needs its own input, and tests cover almost none of them.",
  ["bb2html.cpp","actions.cpp","document_state.cpp","id_xml.cpp","doc_info_actions.cpp","template_stack.cpp","tree.cpp","utils.cpp","xml_parse.cpp","boostbook_chunker.cpp","files.cpp","path.cpp"],
  [("result tests after find/lookup","template_stack.cpp:60")],None,["memory safety","diagnostics"])
p("P09","Bytes outside ASCII are classified and encoded safely",
  "Any byte value can appear in document text, identifiers, file names and URLs: no byte is ever used as a negative table index or handed to a character classification function outside its domain, and bytes are compared and classified as the same value everywhere (never a signed byte against an unsigned one, nor a high byte mistaken for a control character).",
  ["inputs"],"every byte value at every character classification and every table lookup indexed by text",
  "Out-of-domain classification typically works by luck on one C library and build; the existing tests use ASCII only.",
  ["utils.cpp","actions.cpp","id_generation.cpp","post_process.cpp","path.cpp","glob.cpp","xml_parse.cpp","values.cpp"],
  [("character classification calls","id_generation.cpp:40"),("hex escaping","utils.cpp:150")],None,["memory safety","generated URLs"])
p("P10","Settings scoped to a file, template or block are restored afterwards",
  "When the conversion of an included file, an imported file, a template body, a conditional phrase or a nested block ends, on every way out, each setting that it is entitled to change locally (language version, current file and path, source mode, visible macros and templates, output destination, conditional state, list and block parsing context) has the value it had before. By design an imported file's macros and templates are added to the importing file, and files before version 1.6 do not scope templates and source mode.",
  ["inputs","programs","histories"],"every scope-opening construct, every nesting of them and every exit including failed parses",
  "A setting left behind only shows in text that follows the construct, in a document that uses that particular setting afterwards; the tests do not cover the product of constructs and settings.",
  ["state_save.hpp","state.cpp","actions.cpp","scoped.hpp","parsers.hpp","main_grammar.cpp","collector.cpp","template_stack.cpp","document_state.cpp"],
  [("state saver","state.cpp:120"),("scoped actions","scoped.hpp:15"),("output stacks","collector.cpp:20")],None,["generated markup"])
p("P11","Every construct the grammar accepts has an effect in the output",
  "Every element, phrase markup, list kind, source mode and document-info attribute that the language accepts is handled by the stage that turns it into output: none is accepted and then ignored or rejected as unknown later, and each element kind that needs markup has its own markup defined.",
  ["programs","inputs"],"every entry of the grammar's element tables, tag enumerations and document-info attribute list, in every supported language version",
  "Adding or moving one entry on one side compiles and passes; only a document that uses exactly that construct shows it.",
  ["main_grammar.cpp","block_element_grammar.cpp","phrase_element_grammar.cpp","doc_info_grammar.cpp","actions.cpp","doc_info_actions.cpp","markups.cpp","bb2html.cpp","syntax_highlight.cpp"],
  [("element registration","block_element_grammar.cpp:40"),("dispatch by element kind","actions.cpp:140"),("markup table","markups.cpp:25")],None,["generated markup"])
p("P12","Every file whose content or existence influences the output is recorded",
  "Each file the tool reads, each directory listing it makes and each test for the existence of a file it performs while converting a document is recorded with the dependency tracker, and everything recorded is kept and written to the dependency output, so that it is complete for build systems.",
  ["inputs","configurations"],"every file-system query made while converting a document",
  "A missing dependency shows only as a stale rebuild when that particular file changes; tests check the dependency list of few documents.",
  ["dependency_tracker.cpp","actions.cpp","include_paths.cpp","files.cpp","quickbook.cpp","doc_info_actions.cpp"],
  [("dependency recording","dependency_tracker.cpp:60"),("glob expansion","include_paths.cpp:110")],None,["dependency output"])
p("P13","The output is a function of the input",
  "Converting the same sources with the same options gives the same output: it does not depend on the order of a hash table or of memory addresses, on the order in which the file system lists a directory, on the environment, or on the clock other than through the documented date, time and debug settings.",
  ["inputs","configurations","histories"],"every run on every machine for the same sources and options",
  "Tests run on one machine with one library and compare once; nondeterminism is invisible in a single run.",
  ["include_paths.cpp","document_state.cpp","id_xml.cpp","bb2html.cpp","dependency_tracker.cpp","quickbook.cpp","utils.cpp","files.cpp"],
  [("single time source","quickbook.cpp:41"),("ordered containers","document_state_impl.hpp:60")],None,["generated files"])
p("P14","Text inside a false conditional has no effect",
  "Content of a conditional phrase whose macro is undefined is parsed for nesting only: it produces no output, defines no macro, template, identifier or anchor, includes nothing and reports no errors for constructs it would have executed (syntax and layout errors of the text itself, such as an unclosed bracket, are still reported).",
  ["inputs"],"every construct that may appear inside a conditional phrase",
  "Each construct has to be tried inside a false conditional; tests do that for very few.",
  ["actions.cpp","actions.hpp","main_grammar.cpp"],
  [("conditional test at the start of each effect","actions.cpp:140")],[("conditional flag","whether the current text is live","state.hpp:62")],["generated markup","diagnostics"])
p("P15","Each command-line option takes effect as declared",
  "Every declared command-line option is consulted, under the name, type and multiplicity with which it was declared, and its value reaches the setting it stands for; choosing one output format or layout never silently triggers the handling of another.",
  ["configurations"],"every declared option and every combination of them",
  "Options are read by name through a run-time map, so a misspelt name, a wrong type or a missing branch end compiles; tests use very few options.",
  ["quickbook.cpp"],
  [("option declarations and uses","quickbook.cpp:288")],None,["effect of options"])
p("P16","Every identifier in the output comes from the identifier registry",
  "Each id the converter assigns to a section, element, anchor or document is issued by the id registry of the document tree (and so made unique) or inherited from author-supplied raw markup; text is never written as an id directly, and each issued placeholder is replaced by its final id before output.",
  ["inputs"],"every place that emits an id attribute, for every document",
  "Duplicate ids need two constructs that collide; tests check a few fixed documents.",
  ["actions.cpp","doc_info_actions.cpp","document_state.cpp","id_generation.cpp","id_xml.cpp","quickbook.cpp"],
  [("id registry","document_state.cpp:120"),("placeholder replacement","id_xml.cpp:100")],None,["generated markup"])
p("P17","No view of text outlives the text it refers to",
  "Every non-owning reference to text or to a file position that is kept (in a value, node, map, option or returned from a function) refers to text that is still alive whenever it is used.",
  ["inputs","histories"],"every kept text view and every path by which the referenced text can be destroyed first",
  "A dangling view usually still shows the right characters; it depends on allocation and optimisation, so passing tests say nothing.",
  ["string_view.hpp","values.cpp","files.cpp","bb2html.cpp","id_xml.cpp","actions.cpp","native_text.cpp","utils.cpp","document_state.cpp"],
  [("file ownership by reference counting","files.hpp:40"),("value text ownership","values.cpp:150")],None,["memory safety"])
p("P18","Only requested files are written",
  "The tool creates or overwrites only the output document or pages, and the dependency files named by the options, at the locations the options select; it never removes, renames or executes anything, and never opens a source file for writing.",
  ["inputs","configurations"],"every document and option combination, every operation that can change the file system",
  "Tests check that expected files appear, not that nothing else is touched.",
  ["quickbook.cpp","bb2html.cpp","dependency_tracker.cpp","files.cpp"],
  [("the places that open output streams","quickbook.cpp:198")],None,["file system"])
p("P19","No decision depends on uninitialised memory",
  "Every setting, counter and flag of the converter has a defined value before it is first read, in every object, on every path and in every mode.",
  ["inputs","configurations"],"every member of every object and every local variable, on every path from its creation to a read",
  "Uninitialised reads usually see zero in tests; the failure depends on memory contents.",
  ["main_grammar.cpp","state.hpp","actions.hpp","values.cpp","files.cpp","document_state_impl.hpp","bb2html.cpp","quickbook.cpp","template_stack.hpp","code_snippet.cpp"],
  [("constructors","main_grammar.cpp:180")],None,["determinism"])
p("P20","Code highlighting and code processing lose no characters",
  "Every character of a code block or inline code that a highlighter consumes is either written to the output or is part of an escape that the language defines; no recognised token class, fallback or unmatched remainder is dropped.",
  ["inputs"],"every code text, for every source mode",
  "A dropped token class only shows when code uses it; tests cover some tokens in small samples.",
  ["syntax_highlight.cpp","code_snippet.cpp","actions.cpp"],
  [("highlighter grammars","syntax_highlight.cpp:330")],None,["generated markup"])
p("P21","Escaping and unescaping are inverse tables",
  "Each character that is special in markup is escaped on output to the entity that the reader decodes to the same character, no other character is changed, and every table that enumerates special characters (text, attributes, ids, URLs) contains all of them.",
  ["inputs"],"every character in every escaping routine",
  "The tables live in different places and agree only by convention; tests sample some characters.",
  ["utils.cpp","xml_parse.cpp","html_printer.cpp","bb2html.cpp","actions.cpp"],
  [("encoder","utils.cpp:20"),("decoder","utils.cpp:60")],None,["generated markup"])
p("P22","Each language version is served by exactly one variant of a construct",
  "For every supported language version, a construct with version-dependent variants has exactly one applicable variant: version ranges neither overlap so that one variant is unreachable nor leave a version without any variant, and version comparisons use only versions that exist.",
  ["inputs","configurations"],"every supported version and every version-gated alternative",
  "Tests use a few versions per construct; a wrong bound affects a single version.",
  ["parsers.hpp","main_grammar.cpp","block_element_grammar.cpp","phrase_element_grammar.cpp","doc_info_actions.cpp","actions.cpp","grammar_impl.hpp"],
  [("version range parsers","parsers.hpp:200"),("element lower bounds","grammar_impl.hpp:40")],None,["accepted documents"])
p("P23","What the grammar stores is what the handlers take",
  "Whatever the input and language version, every handler of an element or of the document info finds exactly the values it takes: each value it asks for was stored, in that order, with the tag and of the kind (text, converted markup, number, list) it is used as, none is left over, and what an abandoned alternative of the grammar stored is never taken for the element that was matched in the end. No document makes the conversion stop with 'Attempt to read past end of value list', 'Not all values handled' or a failed assertion about values.",
  ["inputs"],"every element and document attribute, every language version, every way the grammar can match or give up",
  "The grammar that stores values and the code that takes them are in different files and agree only by convention; what is stored depends on optional parts, on the version and on alternatives that failed half way, and no unit test parses a document.",
  ["block_element_grammar.cpp","phrase_element_grammar.cpp","doc_info_grammar.cpp","main_grammar.cpp","actions.cpp","doc_info_actions.cpp","values.cpp","values_parse.hpp"],
  [("taking the values of an element","actions.cpp:156"),("document info","doc_info_actions.cpp:170")],None,["conversion"])
# not applicable
p("P30","The layout step preserves content",
  "Pretty-printing the generated BoostBook changes only insignificant white space: text content, preformatted regions and tag structure are the same before and after.",
  ["inputs"],"every generated document, indent and line width",
  "Only sampled documents are compared.",["post_process.cpp"],[("tidy compiler","post_process.cpp:380")])
p("P31","Generated ids are unique and stable per version",
  "Within a document tree no two elements get the same final id, and ids depend only on the titles, explicit ids and versions, so links keep working between releases.",
  ["inputs"],"every document tree","Collisions need particular combinations of ids.",["id_generation.cpp","document_state.cpp"],[("id allocation","id_generation.cpp:120")])
p("P32","Diagnostics and callouts point at the right source line",
  "Each diagnostic names the file and the line of the source text it is about, also inside templates, snippets, unindented code and included files.",
  ["inputs"],"every diagnostic of every document","Positions of a few texts are tested.",["files.cpp","values.cpp","collector.cpp"],[("source map","files.cpp:300")])
p("P33","Relative links resolve to the intended target",
  "Every relative URL written into an output file, resolved against that file's location, denotes the file or anchor the author referred to, for any layout of source, output and xinclude base directories.",
  ["inputs","configurations"],"all directory layouts","Only a few layouts are tested.",["path.cpp","bb2html.cpp","include_paths.cpp"],[("relative path computation","path.cpp:60")])
p("P34","Deeply nested documents do not exhaust the stack",
  "A document of any nesting depth (brackets, lists, sections) is converted or rejected with an error, using bounded stack.",
  ["inputs"],"every nesting depth","Tests nest a few levels.",["main_grammar.cpp","bb2html.cpp"],[("recursive grammar","main_grammar.cpp:500")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
