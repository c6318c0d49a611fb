import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)
p("C01","MicroXML events do not depend on how the input is fragmented",
 "For a well-formed document of start and end tags, text and references, the parser delivers exactly the document's start-element, character and end-element events (names, attributes, open-ancestor lists, one text event per run of text), whatever the places where the input is cut into fragments, empty fragments included, and however the feeding of several parsers is interleaved. "
 "For input which is not well formed, the events delivered and whether the parse ends in an error are the same as when it is fed in one piece. Parsing from one string, from a list of fragments or by feeding the parser coroutine gives the same events.",
 ["inputs","schedules"],"all documents, all sets of cut points (mid tag, name, attribute, reference, text, astral characters), all interleavings of the feeding of several parsers",
 "The tests feed a couple of hand-cut documents; most cut points, notably those in attribute values and character references, and parsers fed alternately, are never reached.",
 ["pylib/uxml/parser.py"],
 [("window/backtracking state machine","pylib/uxml/parser.py:parser"),("character data scan which asks for more input","pylib/uxml/parser.py:handle_cdata"),("parse, parsefrags","pylib/uxml/parser.py")],
 ["events received by a handler coroutine passed to the parser","events yielded by parse and parsefrags"],
 [("window, pos, curr_state","unconsumed input and automaton state carried between fragments","pylib/uxml/parser.py:parser")])
p("C02","Parser events are delivered by the fragment which completes them",
 "After each fragment fed to the MicroXML parser coroutine, the handler has received exactly the events complete in the input fed so far: a tag's event once its closing '>' has been fed, a run of text once the '<' after it has been fed. No event is held back to a later fragment or to the end of input, delivered before it is complete, delivered twice or taken back.",
 ["inputs","schedules"],"all documents, cut points and interleavings of several parsers; checked after every single fragment",
 "The tests look at the events only after the end of the input, so holding back everything to the end, or anticipating, passes them all.",
 ["pylib/uxml/parser.py"],
 [("handler.send as soon as a construct is complete","pylib/uxml/parser.py:parser")],["events received by the handler after each send"])
p("C03","Every parse terminates, and truncated or damaged input is never passed off",
 "Every parse of any input, in any fragments, ends after a bounded amount of work. If the input is a document cut short at any point after its first character and before the end of its document element (a crashed producer, a torn file), then parsing it raises an error rather than returning a tree, finishing normally or looping, in the MicroXML parser, the MicroXML and XML tree builders, the streaming senders over whole documents and queries over text. "
 "A document left unbalanced (an end tag missing, doubled or of another name, a start tag missing), with text or another element before or after its document element, with a tag whose attribute syntax is broken, or with a malformed or unknown reference or one to a character MicroXML does not allow, is likewise reported as an error, the reference by the fragment which brings the offending character. Any other damage leads either to a normal result or to an exception, never to a hang.",
 ["inputs","crash_points","fault_sequences"],"all documents, every truncation offset, all single and double character-level damages, all fragmentations and entry points",
 "The tests parse a few complete documents; they have no truncated input, and a non-terminating parse cannot be a passing test case.",
 ["pylib/uxml/parser.py","pylib/uxml/tree.py","pylib/uxml/xml.py","pylib/uxml/treeiter.py","pylib/uxml/uxpath/__init__.py"],
 [("end-of-input check","pylib/uxml/parser.py:parser"),("final flag to expat","pylib/uxml/xml.py:treebuilder.parse")],["return or exception of each entry point, within a step budget"])
p("C04","A failing or cancelled event handler stops its own parse and nothing else",
 "If the handler given to the MicroXML or XML parser raises at any event, that very exception reaches whoever feeds the parser, the handler gets no further event, and events before it were delivered as usual; closing the parser at any point ends delivery likewise, with no error. "
 "What a handler does to the attributes or ancestor lists it has received does not alter later events. Other parses under way are unaffected by any of this.",
 ["fault_sequences","schedules"],"all documents, fault kinds (exceptions, system-exiting exceptions, early end, close, mutation of received events) at every event position, and interleavings of several parsers",
 "No test has a handler that fails or is closed midway, nor more than one parser at a time.",
 ["pylib/uxml/parser.py","pylib/uxml/xml.py"],
 [("generator delegation and the two except clauses around the main loop","pylib/uxml/parser.py:parser"),("copies of attributes and ancestors in events","pylib/uxml/parser.py:parser, pylib/uxml/xml.py:expat_callbacks")],["exception seen by the feeder","events received by each handler"])
p("C05","A parse's result depends only on its input, not on earlier parses",
 "Each tree returned by a MicroXML, XML or HTML parse entry point has exactly the elements, attributes, text and parent links of its own input, whatever was parsed earlier with the same builder or entry point, including parses which failed, were truncated or were interrupted at any instant. "
 "Trees returned earlier are never modified by, and never share nodes or attribute mappings with, later ones.",
 ["histories","crash_points"],"all sequences of parses (good, malformed, truncated, interrupted by an asynchronous exception at any line) over all reusable builders and module-level entry points",
 "The tests make a new builder for each document and never reuse one after a failure.",
 ["pylib/uxml/tree.py","pylib/uxml/xml.py","pylib/uxml/__init__.py","pylib/uxml/html5.py"],
 [("reset of root and parent at the start of a parse","pylib/uxml/tree.py:treebuilder.parse, pylib/uxml/xml.py:treebuilder.parse"),("weak parent links, strong root","pylib/uxml/tree.py:treebuilder._handler")],["trees returned by parse functions"],
 [("_root, _parent","tree under construction, kept on the builder","pylib/uxml/tree.py:treebuilder")])
p("C06","Threads using the library on their own data do not affect one another",
 "When several threads concurrently parse MicroXML, XML or HTML, stream subtrees, scan tokens, parse and run XPath queries (also over one shared, unmodified tree or one shared parsed expression), serialise or write, each on its own inputs and outputs, every one gets the result it would get running alone, under every interleaving.",
 ["schedules"],"all interleavings, with preemption possible at every executed source line, of all combinations of operations",
 "The tests are single threaded, and an OS scheduler would hardly ever preempt at the few lines that matter.",
 ["pylib/uxml/__init__.py","pylib/uxml/tree.py","pylib/uxml/lex.py","pylib/uxml/uxpath/__init__.py","pylib/uxml/uxpath/xast.py","pylib/uxml/writer.py"],
 [("per-call parser, builder and lexer objects","pylib/uxml/tree.py:parse, pylib/uxml/uxpath/__init__.py:parse, pylib/uxml/lex.py:run"),("root node cache","pylib/uxml/uxpath/xast.py:root_node")],["result or exception of each thread's operation"],
 [("lexer, parser, _cache, BUILTIN_FUNCTIONS","module-level objects shared by all threads","pylib/uxml/uxpath, pylib/uxml/lex.py")])
p("C07","Streaming delivers each matching subtree once, whole and in order",
 "For every document and set of patterns, a streaming sender (MicroXML, XML or HTML) sends each sink exactly the outermost elements matching its pattern ('*' is any one element, '**' any nesting, before another stage, a tuple any of its names), each once, at its end tag, in document order, with exactly the element's content at that time, independent of other patterns, of input chunking and short reads and of documents streamed earlier. "
 "A subtree once delivered is the sink's: attaching, modifying, holding or dropping it changes no other delivery, and the sender does not modify it again.",
 ["inputs","schedules","histories"],"all documents, patterns and pattern sets, chunkings, and sink behaviours (hold, drop, detach children, attach elsewhere, query)",
 "The tests use one pattern and sink at a time, on a few documents, in one chunk, with sinks that only read.",
 ["pylib/uxml/treeiter.py","pylib/uxml/xmliter.py","pylib/uxml/html5iter.py","pylib/uxml/xml.py"],
 [("pattern automaton run over the stack of open elements","pylib/uxml/treeiter.py:sender._match_state"),("per-pattern build state","pylib/uxml/treeiter.py:sender._handler")],["elements received by sinks"],
 [("_evstacks, _parents, _roots, _building_depths","matching and building state of each pattern","pylib/uxml/treeiter.py:sender")])
p("C08","Streaming is timely and keeps what precedes a fault",
 "When streaming stops on malformed or truncated input, on a failing read or on a failing sink, the error reaches the caller, the sinks have received, whole, exactly the matching subtrees which ended before the fault, and nothing is delivered after it. "
 "When XML is fed in pieces, each subtree is delivered by the time the piece with its end tag has been handled by the XML parser, not at the end of the stream, and the same sender object or a new one then handles its next document unaffected.",
 ["fault_sequences","crash_points"],"all documents and patterns, fault kinds (malformed, truncated, read error, sink exception) and positions, chunkings",
 "The tests stream only complete, well-formed documents into sinks and files that never fail.",
 ["pylib/uxml/treeiter.py","pylib/uxml/xmliter.py","pylib/uxml/xml.py","pylib/uxml/parser.py"],
 [("delivery from within the end-element event","pylib/uxml/treeiter.py:sender._handler"),("expat feed and file reading","pylib/uxml/xmliter.py:sender")],["elements received by sinks before and after the fault","exception seen by the caller"])
p("C09","Streaming needs memory for one subtree at a time, and nothing is retained",
 "While a document of any length is streamed, the library keeps alive at most the subtree being built or delivered for each pattern: parts which match nothing are not built, and delivered subtrees of MicroXML or XML input which the sink drops are freed at the latest as the stream goes on, even if the sink ran XPath queries on them. "
 "A tree parsed, queried, serialised or modified and then dropped is freed as well, whether its queries completed, failed or were abandoned.",
 ["histories","schedules"],"all documents, patterns, sink behaviours, queries on delivered subtrees, and garbage collection points",
 "One test counts references in one small document whose sink does no more than read a value; nothing measures what stays alive.",
 ["pylib/uxml/treeiter.py","pylib/uxml/tree.py","pylib/uxml/uxpath/xast.py"],
 [("weak parent links","pylib/uxml/tree.py:node"),("strong reference to the subtree in progress only","pylib/uxml/treeiter.py:sender._handler"),("weak root node cache","pylib/uxml/uxpath/xast.py:root_node")],["live element and text objects, by weak references, after seeded garbage collections"])
p("C10","A failing output loses only what was not written",
 "Without faults, the raw and namespace writers, given properly nested elements, write exactly the serialisation of those elements, attributes in their order, with the needed escapes, when indenting with line breaks and indentation by nesting depth added and nothing else, and each of several writers in use at once writes only its own; a write handler of the user's gets all of it. "
 "If a write to the output fails or is cut short, the error reaches the caller, what the output has accepted is a prefix of the fault-free serialisation, and using the library again, on another output, gives the full serialisation.",
 ["fault_sequences","schedules"],"all element trees, write call sequences, indentation and namespace settings, fault at every write or byte, interleavings of several writers",
 "The tests write a few documents to memory buffers that never fail, one writer at a time.",
 ["pylib/uxml/writer.py","pylib/uxml/tree.py"],
 [("single write function through which all output goes","pylib/uxml/writer.py:raw.write, namespacer.write"),("recursive writing of elements","pylib/uxml/writer.py:write")],["calls received by the output object"])
p("C11","Serialise, transmit and reparse conserves the document",
 "A tree with legal MicroXML names and characters, serialised by its encode method or through the raw writer, carried over any chunked transport and parsed again by the MicroXML or XML parser, is the same tree (names, attributes, text), over any number of such hops, streamed through parser and writer coroutines or whole, with several pipelines interleaved. If the producer stops anywhere after its first character and before the end, the consumer at the next hop gets an error, not a partial document.",
 ["inputs","schedules","crash_points"],"all trees (any legal characters in text and attributes, including white space, quotes and markup), chunkings, numbers of hops, interleavings and producer crash points",
 "The tests compare a few serialised strings; none sends awkward characters around the whole loop or stops a producer midway.",
 ["pylib/uxml/tree.py","pylib/uxml/writer.py","pylib/uxml/parser.py","pylib/uxml/xml.py"],
 [("escape and quoting of text and attributes","pylib/uxml/tree.py:element.xml_encode, pylib/uxml/writer.py:raw"),("reference resolution","pylib/uxml/parser.py:handle_cdata")],["tree at each hop compared with the original"])
p("C12","Trees stay consistent through any history of modifications",
 "After any sequence of appends, insertions (at any position, of nodes which have no parent), removals, attribute changes and pretty-printing, every element has exactly the children and attributes that the same operations give in a plain list model, every child's parent link leads to the element which lists it, removed nodes have no parent, and values, serialisations and selections (the treeutil functions) agree with that state. "
 "An operation acts on the very node it is given, not on an equal one or a copy; a rejected operation changes nothing; pretty-printing changes nothing but whitespace-only text, and lays elements out by depth; a parent link never keeps a dropped ancestor alive.",
 ["histories","crash_points"],"all operation sequences, including failing operations, equal text nodes, node reuse after removal, and dropped references with garbage collection at any point",
 "The tests make one or two modifications to a small tree and look at the encoded result only.",
 ["pylib/uxml/tree.py","pylib/uxml/treeutil.py"],
 [("child list and weak parent link kept in step","pylib/uxml/tree.py:element.xml_insert, xml_remove"),("selections over child lists","pylib/uxml/treeutil.py")],["xml_children, xml_parent, xml_attributes, xml_value, xml_encode and treeutil functions"])
p("C13","XPath results depend only on the expression and the current tree",
 "Evaluating an expression on a node always gives the results for the tree as it is now, whatever queries ran before, were interleaved, abandoned midway, failed or were interrupted, and however the tree was modified, detached or attached to another in between; the same parsed expression can be evaluated again and again. "
 "Every query terminates, and no query modifies the tree.",
 ["histories","schedules"],"all histories of queries (all axes, predicates, unions, functions) and tree modifications, with queries consumed item by item in any interleaving, abandoned or interrupted",
 "The tests run each query once, to the end, on a freshly parsed tree.",
 ["pylib/uxml/uxpath/xast.py","pylib/uxml/uxpath/__init__.py","pylib/uxml/uxpath/functions.py","pylib/uxml/tree.py"],
 [("root node lookup from the current top of the tree","pylib/uxml/uxpath/xast.py:root_node.get"),("document order computed for each union","pylib/uxml/uxpath/xast.py:binary_expression.compute"),("generators with their own context objects","pylib/uxml/uxpath/xast.py, pylib/uxml/uxpath/__init__.py:context")],["items yielded by queries","tree before and after"],
 [("root_node._cache","root nodes by document element","pylib/uxml/uxpath/xast.py")])
p("C14","HTML parsing is independent of reads, and agrees with the HTML algorithm",
 "An HTML tree is the one which the HTML parsing algorithm of the underlying library gives for the same input (elements, attributes, text, repaired nesting), each node in it once, with every child's parent link leading to the element which lists it, whether the source is a string, bytes or a file object. The tree is the one which that library gives for the same reads, and for text sources (without lone carriage returns or a byte order mark) the same one however the reads are cut. A failing read reaches the caller as that error, and the next parse is unaffected.",
 ["inputs","fault_sequences"],"all tag soups, read sizes and read faults, sequences of parses",
 "The tests parse a few nearly clean documents from strings; misnested markup and file sources are not covered.",
 ["pylib/uxml/html5.py"],
 [("html5lib tree builder interface on tree nodes","pylib/uxml/html5.py:element, node, treebuilder")],["tree returned by html5.parse and parse_lax_xml, compared with html5lib's own tree"])
p("C15","Each token scan is independent of every other",
 "Scanning a text with the token scanner yields exactly that text's tokens in order, whatever scans were started, interleaved with it, abandoned midway or met illegal characters before.",
 ["histories","schedules"],"all texts and all histories and interleavings of scans consumed token by token",
 "There is no test of the scanner at all; its lexer is one stateful module-level object.",
 ["pylib/uxml/lex.py"],
 [("a lexer of its own for each scan, started in the initial state","pylib/uxml/lex.py:run")],["tokens yielded by lex.run"],
 [("lexer","shared prototype lexer","pylib/uxml/lex.py")])
p("C16","The microx command gives each source's results, in order, up to a fault",
 "For any list of sources, the command's output is the concatenation, in order, of what each source gives by itself, a match tried on each element in document order, independent of how reads are cut and of earlier commands, and partitioned processing gives the results of each outermost partition element in turn. "
 "If a source is malformed, truncated or fails to read, or the output fails, the error reaches the caller and what was written is a prefix of the fault-free output, including all results of the sources before it.",
 ["fault_sequences","inputs"],"all lists of sources, commands (expression, match, text search, for-each, partition, HTML), read sizes and faults at any read or write",
 "The command has no tests at all.",
 ["exec/microx","pylib/uxml/xml.py","pylib/uxml/xmliter.py","pylib/uxml/uxpath/__init__.py"],
 [("loop over sources and per-partition processing","exec/microx:run"),("reusable XML tree builder","pylib/uxml/xml.py:treebuilder")],["what the output object receives from run()"])
p("C20","Import and XPath survive whatever became of the generated parser tables",
 "However the processes which import the library before it, or at the same time, are killed, run out of disk space, are refused access to files or directories or overtake one another at any point of reading and writing the generated XPath parser tables, and whatever tables a crash, a power failure or another version left behind, importing the library in a process which is not itself killed succeeds, and its XPath queries give the results which they give with freshly generated tables.",
 ["crash_points","fault_sequences","schedules","histories"],"all interleavings of importing processes, kills, failing or short writes and power failures at any byte, unreadable and unwritable files and directories, and stale, torn or foreign tables",
 "The tests import the library once, in an intact and writable directory, and alone.",
 ["pylib/uxml/uxpath/__init__.py","pylib/uxml/uxpath/parserules.py"],
 [("tables generated at import, cached beside the module","pylib/uxml/uxpath/__init__.py: yacc.yacc call"),("choice of directory","pylib/uxml/uxpath/__init__.py:parsedir")],
 ["import of amara3.uxml.uxpath and results of XPath expressions in each process"],
 [("parsetab.py, parser.out","parser tables and their log, shared by all processes and kept from run to run","pylib/uxml/uxpath (generated)")])
p("C17","The MicroXML grammar is accepted and rejected exactly as specified",
 "The MicroXML parser accepts exactly the documents of the MicroXML grammar and reports every other input as an error.",
 ["inputs"],"all input strings","The tests hold only a sample of good and bad documents.",
 ["pylib/uxml/parser.py"],[("character classes and automaton","pylib/uxml/parser.py")],["events or exception"])
p("C18","XPath expressions have the meaning the language gives them",
 "Every MicroXPath expression evaluates on a given tree to the result defined by the language.",
 ["programs","inputs"],"all expressions and trees","The tests hold a sample of expressions.",
 ["pylib/uxml/uxpath/xast.py","pylib/uxml/uxpath/functions.py","pylib/uxml/uxpath/parserules.py"],[("AST evaluation","pylib/uxml/uxpath/xast.py")],["query results"])
p("C19","XML detection never misjudges or crashes on any byte string",
 "The native check whether a byte string looks like XML gives the same answer for every buffer with the same content and never reads outside it.",
 ["inputs"],"all byte strings","No test calls it.",
 ["clib/xmlstring.c"],[("C scanner","clib/xmlstring.c")],["amara3.uxml.isxml"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
