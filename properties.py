"""The properties: data for properties.jsonl and MANIFEST.json (arx/mkdocs.py writes both)."""
AI = "abstract interpretation of the resolved program"
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, qtext, why, files, mechanism, technique=None, level="proof", note=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, level=level,
             technique=technique, na=na)
    if note: d["note"] = note
    PROPS.append(d)


P("C01", "XML character classes agree with XML 1.0 for every code point",
  "Each XML character classification function (Char, S, Letter, BaseChar, Ideographic, Digit, CombiningChar, Extender, NameChar, "
  "NCName character) accepts exactly the code points of the corresponding XML 1.0 (second edition) production. "
  "The answer depends on the code point alone.",
  ["inputs"], "every value of the parameter type", "the unit tests sample a few characters of tables with hundreds of ranges",
  ["src/XML/XMLCharacterClasses.cpp", "include/XML/XMLCharacterClasses.hpp"], [("range tables and tests", "src/XML/XMLCharacterClasses.cpp")],
  "interval-set abstract interpretation against the XML 1.0 tables")

P("C02", "Text and attribute escaping is exact for every character",
  "Escaping character data writes &lt; &gt; and &amp; for the three markup characters and every other character unchanged. Escaping an "
  "attribute value does the same and in addition writes &quot; &#x9; &#xA; and &#xD; for the double quote, tab, line feed and carriage return. "
  "This holds for narrow and wide characters.",
  ["inputs"], "every code unit of char and wchar_t", "tests escape a handful of strings",
  ["include/XML/escaper.hpp"], [("text_escaper / attribute_escaper", "include/XML/escaper.hpp")],
  "path-sensitive abstract interpretation collecting stream insertions")

P("C03", "The SAX writer writes each event's markup, in every event history",
  "For every sequence of SAX events a parser can produce, the XML writer emits for each event exactly the markup it stands for: a pending "
  "start tag is closed before any content, text is escaped outside CDATA sections and copied inside them, attribute values are escaped "
  "and quoted, pending namespace declarations appear once on the next start tag, internal-subset declarations are written and "
  "external-subset ones are not. Every event is also passed on exactly once with its own arguments.",
  ["histories", "inputs"], "all event sequences (fixpoint over the writer's states), all argument strings",
  "tests replay a few documents", ["include/SAX/filter/Writer.hpp"],
  [("event methods and the start-tag / CDATA / DTD flags", "include/SAX/filter/Writer.hpp")],
  "typestate product exploration by abstract interpretation; output language match per event")

P("C04", "SAX filters pass every event and request through to the right party",
  "A SAX filter hands each event it receives to the handler registered for that kind of event, exactly once, with its arguments "
  "unchanged (handlers default to a do-nothing handler, and getters answer what setters stored). Before parsing it registers itself with "
  "its parent for all six kinds of event and then asks the parent to parse; feature requests go to the parent, and are refused as not "
  "recognised when there is none.",
  ["inputs", "configurations"], "every event of every filter class, any arguments, any registered handlers",
  "tests exercise a few events through one or two filters",
  ["include/SAX/helpers/XMLFilterImpl.hpp", "include/SAX/filter/"],
  [("XMLFilterImpl forwarding and set-up", "include/SAX/helpers/XMLFilterImpl.hpp")],
  "constant propagation through handler fields over all paths of all event methods")

P("C05", "Coalesced text is delivered whole and before whatever follows it",
  "The text-coalescing filter keeps adjacent text events together and delivers the accumulated text exactly once, before any other event "
  "that can follow text is passed on, and in an unbroken lump. No text is lost, repeated or overtaken by a later event.",
  ["histories"], "all event sequences", "tests feed a few documents and never a skipped entity",
  ["include/SAX/filter/TextCoalescer.hpp"], [("buffer flush", "include/SAX/filter/TextCoalescer.hpp")],
  "typestate of the buffer over all paths of all event methods")

SIMPLE = "include/DOM/Simple/"
P("C06", "Read-only DOM nodes cannot be modified",
  "Every operation that would change a node's value, prefix, data, attributes or children fails with NO_MODIFICATION_ALLOWED_ERR when the "
  "node (or attribute map) is read-only, whatever its arguments, and nothing has changed afterwards.",
  ["inputs", "configurations"], "every node class, every mutating operation, any arguments and any state of the node",
  "tests try a few operations on a few read-only nodes", [SIMPLE],
  [("read-only guards", SIMPLE + "NodeImpl.hpp"), ("character data", SIMPLE + "CharacterDataImpl.hpp"), ("attribute map", SIMPLE + "AttrMap.hpp")],
  "must-analysis of guards before writes over all paths of all mutators")

P("C07", "A DOM tree only ever has the shape the DOM allows",
  "A node accepts as a child only the kinds of node the DOM allows there, and other requests fail with HIERARCHY_REQUEST_ERR. A document has at "
  "most one element child and one document type child, known as its document element and doctype; a node cannot be put inside itself or "
  "one of its descendants; and a node of another document is refused with WRONG_DOCUMENT_ERR.",
  ["inputs", "histories"], "every pair of parent and child classes, every child operation, every position, ancestors at any depth",
  "the matrix has hundreds of entries; tests try a few of them", [SIMPLE],
  [("child type check", SIMPLE + "NodeImpl.hpp"), ("document and its element and doctype", SIMPLE + "DocumentImpl.hpp")],
  "abstract interpretation of the class × operation matrix")

P("C08", "Tree links stay consistent through every child operation",
  "After insertBefore, replaceChild, removeChild or appendChild the list of children is exactly the old one with that change made, first, last, "
  "previous and next sibling and parent agree with the list, and a node has one place in one tree: inserting it removes it from where it was, "
  "inserting a fragment moves its children in order and empties it. A removed node belongs to no parent and stays owned by its document, "
  "and an operation that fails changes nothing.",
  ["histories", "inputs"], "child lists of any length (known neighbours, arbitrary runs elsewhere), every position, every operation",
  "tests build short lists and look at some of the links", [SIMPLE + "NodeImpl.hpp", SIMPLE + "DocumentImpl.hpp"],
  [("child list surgery", SIMPLE + "NodeImpl.hpp")],
  "shape analysis with summary segments over the resolved program")

P("C09", "Character data operations are exact and stay in bounds",
  "substringData, insertData, deleteData, replaceData and splitText work for exactly the offsets from 0 to the length and counts from 0 up, and "
  "otherwise fail with INDEX_SIZE_ERR having changed nothing. When they work, text before the offset and after the count is kept, a count past "
  "the end means up to the end, and splitText leaves the first part in the node and puts the rest in a new node of the same kind.",
  ["inputs"], "every offset and count (intervals over the whole int range, data of lengths 0, 1, 5 and 1000), any text",
  "tests pick a few offsets", [SIMPLE + "CharacterDataImpl.hpp", SIMPLE + "TextImpl.hpp", SIMPLE + "CDATASectionImpl.hpp"],
  [("bounds and splices", SIMPLE + "CharacterDataImpl.hpp"), ("splitText", SIMPLE + "TextImpl.hpp")],
  "interval analysis of guards and normal forms of string splices")

P("C10", "An element has one attribute per name, and each attribute one owner",
  "Setting an attribute replaces one of the same name (or the same namespace and local name) and returns it, or else adds it; removing takes "
  "out that attribute and no other. An attribute in use by another element is refused with INUSE_ATTRIBUTE_ERR and one from another document "
  "with WRONG_DOCUMENT_ERR, with nothing changed; an attribute taken out has no owner element and stays owned by its document.",
  ["histories", "inputs"], "attribute lists with arbitrary other members, every attribute operation by name, node and namespace",
  "tests use one or two attributes", [SIMPLE + "AttrMap.hpp", SIMPLE + "NamedNodeMapImpl.hpp", SIMPLE + "ElementImpl.hpp"],
  [("attribute map", SIMPLE + "AttrMap.hpp"), ("element", SIMPLE + "ElementImpl.hpp"), ("attribute", SIMPLE + "AttrImpl.hpp")],
  "abstract interpretation over attribute lists with summary elements")

P("C11", "Namespace declarations and base URIs hold exactly within their elements",
  "The namespace tracker answers, from an element's start event to its end event, with the declarations that preceded the start, which hide outer "
  "ones of the same prefix; afterwards the outer bindings are back as they were, and xml is always bound to its own URI and cannot be redeclared. "
  "The base tracker likewise: an element's xml:base, resolved against the base around it, holds within that element only, starting from the "
  "document's location.",
  ["histories", "inputs"], "any declarations and URIs, elements nested over an arbitrary stack of outer ones",
  "tests parse a few documents; the base tracker has no tests", ["include/SAX/helpers/NamespaceSupport.hpp", "include/SAX/filter/NamespaceTracker.hpp",
  "include/SAX/helpers/XMLBaseSupport.hpp", "include/SAX/filter/XMLBaseTracker.hpp"],
  [("context stack", "include/SAX/helpers/NamespaceSupport.hpp"), ("base stack", "include/SAX/helpers/XMLBaseSupport.hpp")],
  "abstract interpretation with stacks over an arbitrary rest; balanced push and pop as equality of abstract values")

P("C12", "The PYX writer writes exactly the PYX line of each event",
  "The PYX writer writes ( and the local name for a start tag followed by one A line with name and value per attribute in order, ) and the local name for an end tag, - "
  "and the text for characters, ? with target and data for a processing instruction, one per line, with each line feed inside text or a value "
  "written as \\n, and nothing for other events. Every event is passed on once and unchanged, and the whitespace stripping filter drops ignorable whitespace.",
  ["inputs", "histories"], "every character value in texts of up to 3 characters, up to 3 attributes, any names",
  "tests write one or two documents", ["include/SAX/filter/PYXWriter.hpp", "include/SAX/filter/WhitespaceStripperFilter.hpp"],
  [("event methods", "include/SAX/filter/PYXWriter.hpp")],
  "path-sensitive abstract interpretation over symbolic characters, exact output per path")

P("C13", "A SAX attribute list is an ordered list with consistent look-ups",
  "Adding, replacing, changing, removing, clearing and copying attributes leaves exactly the expected list, and look-ups by position, by qualified "
  "name and by namespace and local name agree with it (the first match answers; -1 or the empty string if there is none). Changing or removing "
  "at a position outside the list throws std::out_of_range and changes nothing.",
  ["histories", "inputs"], "lists of up to three attributes with arbitrary strings, every position and name, every operation",
  "tests use one list of fixed content", ["include/SAX/helpers/AttributesImpl.hpp"], [("attribute list", "include/SAX/helpers/AttributesImpl.hpp")],
  "abstract interpretation over symbolic lists against a list specification")

P("C14", "Factory, clone and import give exactly the node asked for",
  "Each factory of a document gives a node of its own kind, name and value with no parent, owned by and freed with that document; a name with "
  "characters XML forbids there is refused with INVALID_CHARACTER_ERR. cloneNode and importNode keep kind, name, value, namespace and attributes, "
  "copy all descendants in order when deep and none when shallow, leave the original as it was, and importing a document or doctype fails with "
  "NOT_SUPPORTED_ERR. An entity reference shows a read-only copy of what its document's entity of that name holds.",
  ["inputs", "histories"], "every kind of node, names of up to 3 characters of any class, children and attributes with arbitrary others around them",
  "tests clone and import a few kinds of node", [SIMPLE + "DocumentImpl.hpp", SIMPLE + "ElementImpl.hpp", SIMPLE + "NodeImpl.hpp"],
  [("factories and import", SIMPLE + "DocumentImpl.hpp"), ("entity references", SIMPLE + "EntityReferenceImpl.hpp")],
  "abstract interpretation of factories, clones and imports over symbolic trees")

P("C15", "Element lists, attribute values and ID look-ups are always current",
  "At any time a list of elements by name, or by namespace and local name, is exactly the elements below its root that match, in document order, "
  "whatever was changed since it was made or last read. The value of an attribute is the text of its children, and getElementById finds the "
  "element whose ID attribute has that value now and none that was removed.",
  ["histories"], "every tree-changing operation between two readings of a list, over trees with known shape and any names",
  "tests read lists after one or two kinds of change", [SIMPLE + "ElementByTagImpl.hpp", SIMPLE + "AttrImpl.hpp", SIMPLE + "DocumentImpl.hpp"],
  [("live lists", SIMPLE + "ElementByTagImpl.hpp"), ("attribute value", SIMPLE + "AttrImpl.hpp"), ("ID attributes", SIMPLE + "DocumentImpl.hpp")],
  "abstract interpretation of change then read, against the list recomputed from the tree")

P("C16", "Each XPath axis lists exactly its nodes, in axis order",
  "From any node, each of the thirteen XPath axes lists exactly the nodes XPath 1.0 puts on it, each once, forward axes in document order and reverse axes "
  "in reverse document order, with adjacent text and CDATA nodes counted as one text node. Attributes have no children or siblings, namespace declarations are "
  "not on the attribute axis, and the namespace axis of an element has one node per prefix in scope with its innermost URI.",
  ["inputs"], "every axis from every node of trees with every neighbourhood of node kinds, in a document, a fragment and without either",
  "tests walk a few small documents, none with split text or redeclared prefixes", ["include/XPath/impl/xpath_axis_enumerator.hpp"],
  [("axis walkers", "include/XPath/impl/xpath_axis_enumerator.hpp"), ("namespace nodes", "include/XPath/impl/xpath_namespace_node.hpp")],
  "abstract interpretation of the axis walkers against the axis definitions")

P("C17", "Parsing into a DOM builds exactly the tree the events describe",
  "Parsing with the SAX-to-DOM parser builds a document whose nodes, names, attributes, order and nesting are those of the reader's events: contiguous text is one "
  "text node, CDATA sections are CDATA nodes, a resolved entity's content stands where it was referenced, an unresolved one leaves an entity reference, and the "
  "doctype carries the declared entities, notations, default attributes and ID attributes and is read-only, while comments and instructions inside the DTD are "
  "not in the document. When an error or fatal error is reported, or the content cannot form a document, the parse answers false, no document is kept and the "
  "error handler is told. Nothing of one parse shows in the document of the next.",
  ["inputs", "histories"], "every order of reader events, including repeated, nested and undeclared entities, errors anywhere, and one parser used repeatedly",
  "tests parse a few well-formed documents once each, with no reuse after errors and no nested external entities", ["include/DOM/SAX2DOM/SAX2DOM.hpp"],
  [("builder", "include/DOM/SAX2DOM/SAX2DOM.hpp"), ("doctype", "include/DOM/SAX2DOM/DocumentTypeImpl.hpp"), ("text coalescer", "include/SAX/filter/TextCoalescer.hpp")],
  "abstract interpretation of the builder over event sequences covering each event in each builder state, against a reference tree")

P("C18", "XPath comparisons, conversions, arithmetic and logic follow XPath 1.0",
  "Comparing, converting and combining XPath values gives the results of XPath 1.0: a comparison with a node-set holds when some node makes it hold, only XPath "
  "numerals convert to numbers, a zero or NaN number, an empty string and an empty node-set are false, and division, mod and negation follow IEEE 754 including "
  "NaN, infinities and signed zeros. 'and' and 'or' evaluate their right operand only when the left does not settle the answer. Evaluating a value gives an "
  "independent value equal to it.",
  ["inputs"], "every number, string and node-set on either side of every operator",
  "tests compare a few dozen pairs; NaN, signed zeros, empty node-sets and mixed types on both sides multiply to thousands of combinations",
  ["include/XPath/impl/xpath_relational.hpp", "include/XPath/impl/xpath_arithmetic.hpp", "include/XPath/impl/xpath_logical.hpp", "include/XPath/impl/xpath_value.hpp",
   "include/XPath/impl/xpath_object.hpp"],
  [("operators", "include/XPath/impl/xpath_relational.hpp"), ("conversions", "include/XPath/impl/xpath_value.hpp"), ("comparisons", "include/XPath/impl/xpath_object.hpp")],
  "abstract interpretation of each operator over unknown numbers and strings; each path judged under an assignment pool with every order type")

P("C19", "XPath node-sets: one document order, no duplicates, unions, string-values",
  "Putting an XPath node-set in document order arranges its nodes as they occur in the document, elements before their namespace nodes before their attributes before "
  "their children, each node once, whatever order and direction they were collected in; nodes of different documents, fragments and loose trees have one consistent "
  "order and are not interleaved. A union holds every node of both operands once, and is an error on anything but node-sets. The string-value of a node-set "
  "is that of its first node in document order: concatenated text for elements and roots, own value for other nodes.",
  ["inputs"], "every collection of nodes of every kind from any number of trees",
  "tests sort a handful of nodes of one document; the comparison has to be a strict total order over all pairs of nodes, which no sample shows",
  ["include/XPath/impl/xpath_object.hpp", "include/XPath/impl/xpath_union.hpp", "include/XPath/impl/xpath_value.hpp"],
  [("document order", "include/XPath/impl/xpath_object.hpp"), ("union", "include/XPath/impl/xpath_union.hpp"), ("string-value", "include/XPath/impl/xpath_object.hpp")],
  "abstract interpretation of sorting, union and string-value on documents holding every pair of node relations; the order relation checked for totality and transitivity")

P("C20", "XPath steps, node tests, predicates and paths select the right nodes",
  "A step selects exactly the nodes of its axis that meet its node test; names without a prefix match only nodes in no namespace. Predicates apply one after another, each "
  "asked once per remaining node with that node's position and the number of nodes, counted in axis direction for steps and in document order for filter expressions; a "
  "number keeps the node at that position and anything else is taken as a boolean. A path selects every node its steps reach from the context node, or from the "
  "root for an absolute path, once each.",
  ["inputs"], "every axis, node test, list of predicates and path, from context nodes of every kind",
  "tests evaluate some tens of paths on one small document; reverse axes, attribute and namespace nodes, chained predicates and NaN positions are barely combined",
  ["include/XPath/impl/xpath_step.hpp", "include/XPath/impl/xpath_node_test.hpp", "include/XPath/impl/xpath_execution_context.hpp"],
  [("steps", "include/XPath/impl/xpath_step.hpp"), ("node tests", "include/XPath/impl/xpath_node_test.hpp"), ("positions", "include/XPath/impl/xpath_execution_context.hpp")],
  "abstract interpretation of steps, predicates and paths over a document with every kind of node; predicates are oracles whose position, size and node are recorded")

P("C21", "XPath core functions give the results XPath 1.0 specifies",
  "Each function of the XPath core library (all but id and lang) is found by its name, takes only the numbers of arguments XPath allows, evaluates them where the call stands and gives "
  "what XPath 1.0 says: string functions for strings with any arrangement of equal characters, substring with any start and length, round, floor and ceiling for "
  "every number including NaN, infinities and negative zero, and node-set functions for nodes of every kind. Standard functions cannot be redefined, other names and "
  "namespaces go to the function resolver, and a function nobody knows is an error.",
  ["inputs"], "every string, number and node-set passed to any of the 25 functions, with every number of arguments",
  "tests call each function with a few friendly arguments; fractional, infinite and out-of-range positions and repeated characters are not combined",
  ["include/XPath/impl/xpath_function.hpp", "include/XPath/impl/xpath_function_holder.hpp", "include/XPath/impl/xpath_object.hpp", "include/text/normalize_whitespace.hpp"],
  [("functions", "include/XPath/impl/xpath_function.hpp"), ("names", "include/XPath/impl/xpath_function_holder.hpp"), ("rounding", "include/XPath/impl/xpath_object.hpp")],
  "abstract interpretation of each function, reached through the name table, on strings of unknown characters and numbers of every rounding class, judged under every pattern of equal characters")

P("C22", "A DOM tree written as markup reads back as the same tree",
  "Writing a DOM node to a stream gives well-formed markup, and a namespace-aware parser that reads it gets the same tree: the same elements and attributes with the same "
  "namespaces and local names, the same attribute values and text, the same CDATA content even where it holds ']]>', the same comments, processing instructions and entity "
  "references in the same order. This holds for whole documents, fragments, parts of a tree and nodes in no tree, whatever prefixes the nodes carry: prefixes that clash, "
  "are missing or are redeclared further in get declarations that put every name in its own namespace, and no tag declares a prefix or writes an attribute twice.",
  ["inputs"], "every tree, every assignment of namespaces and prefixes to its elements and attributes, every content",
  "tests write a few small trees with one or two namespaces; clashing, missing and shadowed prefixes at several levels combine into thousands of cases",
  ["include/DOM/io/Stream.hpp", "include/XML/escaper.hpp"],
  [("writing", "include/DOM/io/Stream.hpp"), ("escaping", "include/XML/escaper.hpp")],
  "abstract interpretation of the stream operator over families of trees with unknown characters; a namespace-aware reader, written from the recommendations, decides each output")

P("C23", "What an XSLT stream sink writes reads back as the result tree",
  "Whatever elements, attributes, text, comments and processing instructions a transformation outputs, the stream sink writes markup that a namespace-aware reader takes "
  "back to the same result tree: every name in its own namespace whatever prefixes were asked for, an attribute added twice holding the later value, one added after "
  "children ignored, text escaped or, in exactly the elements listed as cdata-section-elements, in CDATA sections that hold any text however it is split over calls, and "
  "comments and processing instructions kept well-formed by at most added spaces. The XML declaration and document type follow the output settings, indenting adds only "
  "white space, and the text method writes the text alone, unescaped.",
  ["programs"], "every sequence of output operations, every assignment of prefixes and namespaces, every output setting",
  "tests compare the output of some transformations with stored files; clashing prefixes, text split over calls and combinations of settings are not met",
  ["include/XSLT/impl/xslt_output.hpp", "include/XSLT/impl/xslt_sink.hpp", "include/XSLT/impl/xslt_namespace_stack.hpp"],
  [("result tree", "include/XSLT/impl/xslt_output.hpp"), ("markup", "include/XSLT/impl/xslt_sink.hpp"), ("prefixes", "include/XSLT/impl/xslt_namespace_stack.hpp")],
  "abstract interpretation of the stream sink over families of output sequences with unknown characters; a namespace-aware reader, written from the recommendations, decides each output")

P("C24", "The Expat reader reports exactly the parsed document's events",
  "Parsing with the Expat reader gives each handler that is set exactly the events the parser delivers for its interface, in document order and with the names, namespaces, "
  "attributes, identifiers, content models and defaults SAX 2 asks for, whichever handlers and features are set and however the input comes in pieces, and a prefix mapping "
  "starts and ends exactly around the element that declares it. External entities and the external subset come from the resolver the application set, or from their system "
  "identifier, and are reported as skipped otherwise; errors are reported with their position, and an exception from a handler reaches the caller. A reader "
  "can be used again after any document, also one which failed or was abandoned, and features cannot change while it parses.",
  ["inputs", "histories"], "every sequence of parser events, every set of handlers and features, every way input is split, every series of parses",
  "tests parse a few documents with all handlers set; declarations, entities, errors and abandoned parses are hardly met in combination",
  ["include/SAX/wrappers/saxexpat.hpp", "src/SAX/wrappers/saxexpat.cpp", "include/SAX/helpers/NamespaceSupport.hpp", "include/SAX/helpers/AttributesImpl.hpp"],
  [("reader", "include/SAX/wrappers/saxexpat.hpp"), ("prefixes", "include/SAX/helpers/NamespaceSupport.hpp"), ("attributes", "include/SAX/helpers/AttributesImpl.hpp")],
  "abstract interpretation of the reader against a model of Expat's interface that plays scripted documents through the callbacks the reader registered; a reference written from SAX 2 decides the events")

P("C25", "The libxml2 reader reports exactly the parsed document's events",
  "Parsing with the libxml2 reader gives each handler that is set exactly the events the parser delivers for its interface, in document order and with the names, namespaces, "
  "attributes, identifiers, content models, attribute types and defaults SAX 2 asks for, whichever handlers and features are set and however the input comes in pieces; a prefix "
  "mapping starts and ends exactly around the element that declares it, and a CDATA section around its text. Warnings and errors are reported with the position and system identifier "
  "of where they were found, a document that cannot be opened as a fatal error, and an exception from a handler reaches the caller. A reader can be used again after any document, also "
  "one which failed or was abandoned, and namespace features cannot change while it parses.",
  ["inputs", "histories"], "every sequence of parser events, every set of handlers and features, every way input is split, every series of parses",
  "tests of this reader parse a few documents through the DOM builder and a filter; declarations, CDATA sections, errors and abandoned parses are not met",
  ["include/SAX/wrappers/saxlibxml2.hpp", "src/SAX/wrappers/saxlibxml2.cpp", "include/SAX/helpers/NamespaceSupport.hpp", "include/SAX/helpers/AttributesImpl.hpp"],
  [("reader", "include/SAX/wrappers/saxlibxml2.hpp"), ("callbacks", "src/SAX/wrappers/saxlibxml2.cpp"), ("prefixes", "include/SAX/helpers/NamespaceSupport.hpp"), ("attributes", "include/SAX/helpers/AttributesImpl.hpp")],
  "abstract interpretation of the reader against a model of libxml2's interface that plays scripted documents through the functions the reader gave it; a reference written from SAX 2 decides the events")

