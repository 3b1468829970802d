CLAIMED = {
 "P01": ("path-sensitive interprocedural dataflow (error-accounting automaton)",
         "Every path of every function that can report an error, helpers inlined and exceptions followed into handlers; trusts the clang CFG and that parser callbacks only report through the state's counter."),
 "P02": ("typestate analysis of output streams",
         "Every output stream object on every path, including helpers taking the stream by reference; streams stored in objects would be reported as not analysable."),
 "P15": ("declared-versus-used option tables, dataflow from option to setting, switch fall-through on the CFG",
         "Decides that each option is consulted with its declared name and type, guarded, and stored in its own setting that is read elsewhere; not that the consumer does the documented thing with it."),
 "P05": ("nullability and left-recursion analysis of the extracted grammars; progress dataflow over every loop with callees inlined",
         "Every grammar repetition and rule, and every loop of the source. Decides that each iteration changes something the loop's end depends on, not that the change is in the right direction; recursion in C++ code is P06."),
 "P11": ("table comparison between grammar, dispatcher, markup table and HTML handlers; path-sensitive dataflow per element tag through the dispatcher into its handler",
         "Every element tag, mark, source mode, document attribute and emitted element name, enumerated from the source. Decides that each is handled and has some effect; not that the effect is the documented one."),
 "P22": ("interval analysis of version guards in grammars and code",
         "Every version-guarded grammar alternative and version comparison; decides coverage and disjointness over the supported version range, not that a variant's behaviour matches its version's documentation."),
 "P18": ("backward provenance of every written path, forbidden-call query, path-sensitive guards on optional outputs",
         "Every stream or directory creation in the program with all origins of its path (flow-insensitive, field-based, call-context sensitive). Assumes no aliasing through raw memory; symbolic links in the output directory are outside it."),
 "P09": ("signedness analysis of every use of a char's numeric value, path-sensitive guards",
         "Every index, classification call, widening, byte arithmetic and range comparison on a plain char in the program (char is signed here). Third-party code (Spirit's character classes) is trusted."),
 "P13": ("order/address/environment dependence queries and provenance of iteration sources",
         "Every iteration over a hash or pointer-ordered container and directory listing, every clock, environment, address or locale source; trusts Boost and the standard library not to add others."),
 "P19": ("definite-initialisation dataflow over constructors, locals and grammar storage",
         "Every scalar member, local and member of a local object in the program; decides that each is written before it is read on every path (scalars and pointers; arrays filled through raw memory are outside it)."),
 "P21": ("conditional constant propagation of each byte value through the encoders; the decoder's table read out of its grammar",
         "All 256 byte values through five encoders and back through the decoding grammar, all entities it names, and sampled numeric references in each UTF-8 length class (the bit operations are uniform within a class)."),
 "P08": ("typestate analysis of lookup results with inferred nullable functions and required arguments",
         "Every find-like call (iterators, string positions, nullable pointers, functions inferred to return them) on every path. Class-internal links of the tree and list types are that class's protocol and not covered."),
 "P06": ("path-sensitive dataflow over the call graph from every grammar action to every conversion of looked-up text",
         "Nesting through template bodies, code snippets and included or imported files. Decides the depth bound, its restoration and its writers; not the time a document with several recursive calls per level takes, nor recursion over the nesting of brackets within one text."),
 "P07": ("typestate of text iterators and index facts, callees in the context of their callers",
         "Every read through a text iterator or index and every step forward in the hand-written scanners. Not decided: positions stored in mapped_file sections (three reads in to_original_pos), a second write cursor that follows the read cursor (normalize_id), and overshoot by two steps after an inequality test."),
 "P12": ("typestate of paths between the dependency tracker and every file-system query; completeness of the tracker's own storage and output",
         "Reads, listings, existence tests and paths kept for reading, in the context of their callers; that a glob is recorded in the directory that is listed; that the tracker stores, keeps and writes what it is given. Not decided: tests of whether a path is a directory (xmlbase), and comparisons of two paths for being the same place."),
 "P14": ("effect analysis of every grammar action and semantic function reachable inside a suspended conditional, path-sensitive on the suspension flag",
         "Every action that the extracted grammar can run inside the suspended scope, with the functions it calls. Decides that output, macro, template, id, include and error effects are unreachable while the flag is off, that the flag is set from the condition, only narrows when nested, and is restored; layout warnings of the text itself are outside it."),
 "P20": ("coverage analysis of the extracted highlighter grammars; path-sensitive dataflow of the copy position in snippet processing",
         "Every consuming position of the three highlighter grammars and of the snippet grammars, every printing action. Decides that each consumed character is in the range of an action that writes its whole range, and that skipped text in snippets is copied before the position moves; escaping of what is written is P21."),
 "P23": ("finite automata of the values the grammar's actions store, composed with a dataflow analysis of the handlers that take them",
         "Every value list the grammar can store for each of the eight language versions, including what failed alternatives leave, against every handler and document-info consumer: order, tag, kind, presence and remainder. Lookahead is ignored (every alternative may fail unless it provably cannot), so the stored languages are over-approximated; values that reach a handler through a template or macro at run time are not judged."),
 "P10": ("abstract interpretation of the conversion state through the semantic actions, scoped parsers and the extracted grammar (least fixpoint)",
         "Every field of the conversion's state and of the main grammar's local state, every stack, all rules reachable from the parses of the program, for versions before 1.6, 1.6 and 1.7. Exceptional paths are taken to be undone by destructors; the two swapped output buffers on error paths of template calls before 1.7, and what anchors contain, are not followed."),
 "P03": ("interprocedural provenance (taint) analysis from every place that adds text to markup back to where the text comes from, with the value kinds found by P23",
         "Every sink (output collectors, streams bound to them, the HTML text, macro values, output files) and every definition that may reach it, flow-insensitively through the whole program; characters the grammar writes as they are must be inside a plain-text value scope. Text inside the XML tree read back from the tool's own output counts as markup; what escaping functions do to each character is P21's part."),
 "P16": ("path-sensitive tracking of the text written before each value (which attribute it lands in) and interprocedural provenance of what is written there; typestate of generated HTML ids",
         "Every place that writes to an id attribute or writes an issued id, in all of src; every exit of the document from the converter; the HTML ids. Whether the registry's final ids are distinct strings is P31 and not decided here; ids inside markup the author wrote raw are exempt."),
 "P04": ("path-sensitive automaton over the markup written to each buffer (an XML scanner run on every path, helpers judged inside their callers), with pairing of openers and closers across functions and across grammar actions",
         "Every function of the program that writes markup text, over all its paths; the markup table; list, section and document elements that one function opens and another closes; grammar rules whose actions do. Text given by the author, encoded content and markup of templates count as balanced by themselves; text moved between buffers is assumed whole, and how many elements a loop leaves open is counted up to 14."),
 "P17": ("ownership (lifetime) analysis: interprocedural origins of every view that is kept, typestate of views against changes of their text, ownership of files by what keeps positions in them",
         "Every return, member, container entry, static and local variable of view type (string views, iterators and pointers into text), with all places in the program its text can come from, call-context sensitive; every vector, text and file pointer a local refers into. Flow-insensitive about members: a view of a heap object's own text (a tree node's, a file's, a state's) is taken to be alive while the object is, and that the object outlives the view is only decided for files, values and locals."),
}
NA = {
 "P30": "Content preservation is an equality between run-time strings produced by a recursive pretty printer; no structural condition implies it.",
 "P31": "Uniqueness of generated ids is a property of run-time strings and of a counter search over them; the who-may-issue-ids part is claimed as P16.",
 "P32": "Line numbers are values computed by arithmetic over source maps; correctness is numerical, not structural.",
 "P33": "Whether a relative URL resolves to its target is a relation between run-time paths.",
 "P34": "The document grammar is recursive by design; a stack bound would need a run-time depth counter the code does not have, and no static argument bounds input nesting.",
}
