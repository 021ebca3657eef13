#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py).

Each entry: id, title, statement, over, text, why, files, mechanism[(name, where)], harness source(s), technique.
"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, technique=technique, note=' '.join(note.split()),
                  observe=observe, na=na))

# ---------------------------------------------------------------- SAX
prop('S01', 'SAX events report exactly the information in the document',
 '''Parsing any namespace-well-formed document delivers a correctly ordered, properly nested stream of content, lexical,
 declaration and DTD events carrying exactly the element names (URI, local name, qualified name), attribute values,
 prefix-mapping scopes, character data, comments, processing instructions and CDATA boundaries the document contains.
 Namespace declarations in scope apply to the elements and prefixed attributes beneath them and to nothing else, and the
 namespace features switch prefix-mapping events and namespace-declaration attributes on and off as documented.''',
 ['inputs', 'configurations'], 'all namespace-well-formed documents (nesting, shadowed and undeclared prefixes, DTD, entities, CDATA, comments, PIs) x namespace feature settings',
 'The suite parses a few dozen fixed documents; the mapping must hold for every nesting of scopes and every mix of node kinds.',
 ['include/SAX/wrappers/saxexpat.hpp', 'include/SAX/helpers/NamespaceSupport.hpp', 'include/SAX/helpers/AttributesImpl.hpp', 'src/SAX/wrappers/saxexpat.cpp'],
 [('Expat callbacks to SAX events', 'include/SAX/wrappers/saxexpat.hpp'), ('namespace context stack', 'include/SAX/helpers/NamespaceSupport.hpp')],
 'property-based testing: generated document model, serialised with random syntactic variation, parsed, event trace compared with the trace computed from the model', 'Expat build of the parser; std::string and std::wstring instantiations.')
prop('S02', 'Malformed documents are reported, well-formed ones are not',
 '''For any sequence of bytes the parser terminates without memory errors, reports a fatal error exactly when the document is not well-formed
 XML, and reports an error when it is well-formed but uses an undeclared namespace prefix in an element or attribute name (refusing by exception a document with names that are not QNames), and reports neither otherwise.
 The events delivered before a fatal error are a prefix of a properly nested stream, and the reported line number is that of the offending construct.''',
 ['inputs'], 'all byte strings, in particular documents one edit away from well-formed',
 'Tests parse a handful of broken documents; the verdict must be right for any byte string.',
 ['include/SAX/wrappers/saxexpat.hpp'], [('error dispatch', 'include/SAX/wrappers/saxexpat.hpp')],
 'property-based testing: mutated documents, differential oracle is the underlying Expat library driven directly plus an independent namespace checker', 'Verdict oracle is raw Expat; what Expat itself accepts is trusted.')
prop('S03', 'Parsing is independent of earlier parses and of how the bytes arrive',
 '''The events and errors reported for a document depend only on the document and the parser settings: a parser object that has already parsed other
 documents, including ones that failed or whose handler threw an exception, reports the same as a fresh one.
 The same holds however the input stream splits the bytes into chunks, and whether the input is given as a stream, as a file or through an entity resolver.''',
 ['histories', 'inputs'], 'all sequences of parses on one reader (successes, malformed documents, handlers that throw), all chunkings of the stream',
 'Tests use a fresh parser for nearly every document and in-memory string streams.',
 ['include/SAX/wrappers/saxexpat.hpp', 'include/SAX/helpers/InputSourceResolver.hpp', 'src/SAX/helpers/InputSourceResolver.cpp', 'include/SAX/InputSource.hpp'],
 [('reset between parses', 'include/SAX/wrappers/saxexpat.hpp'), ('input source resolution', 'src/SAX/helpers/InputSourceResolver.cpp')],
 'property-based testing: random parse histories and chunkings, differential against a fresh parser', 'Expat reader; also the libxml2 reader for stream chunking.')
prop('S04', 'All parser back ends report the same document',
 '''For any namespace-well-formed document the Expat, libxml2 and Xerces readers deliver the same sequence of element, attribute,
 prefix-mapping, character data, processing-instruction and comment events, whatever they parsed before; for any malformed document all of them report a (fatal) error or refuse it with an exception.''',
 ['inputs', 'configurations'], 'all documents without external DTD or attribute defaults x the three back ends',
 'Each test run exercises one back end at a time on fixed documents; agreement across back ends is never compared.',
 ['include/SAX/wrappers/saxexpat.hpp', 'include/SAX/wrappers/saxlibxml2.hpp', 'include/SAX/wrappers/saxxerces.hpp'],
 [('back end adapters', 'include/SAX/wrappers')],
 'differential property-based testing: one generated document through three back ends linked in one program', 'Constructs where the underlying libraries legitimately differ (DTD details, error positions) are excluded by construction.')
prop('S05', 'Writing SAX events yields XML that parses back to the same events',
 '''The text written by the XML writer filter for any properly nested event stream is well-formed XML which, parsed again, delivers the same elements,
 attributes, character data, CDATA sections, comments, processing instructions and namespace declarations, whatever characters the values contain;
 and the filter forwards to its downstream handlers exactly the events it received.''',
 ['inputs'], 'all documents parsed through the writer, with any indentation depth and any legal characters in values',
 'No test writes more than fixed documents.', ['include/SAX/filter/Writer.hpp', 'include/XML/escaper.hpp'],
 [('markup output and escaping', 'include/SAX/filter/Writer.hpp'), ('escaper', 'include/XML/escaper.hpp')],
 'property-based testing: round trip through writer and parser', 'White space the writer inserts for indentation is discounted.')
prop('S06', 'SAX filters change only what they are documented to change',
 '''A plain filter forwards every event, feature and handler setting unchanged; the text coalescer merges each run of adjacent character events and
 nothing else; the white space stripper removes leading and trailing white space and collapses inner runs in character data only; the text-only filter passes only
 character data; the namespace tracker reports for each prefix the binding in scope; the base tracker reports the base URI in scope at every element;
 and the PYX writer writes one line per event that encodes it completely.''',
 ['inputs', 'programs'], 'all documents x chains of filters',
 'Tests use single filters on one or two documents.', ['include/SAX/helpers/XMLFilterImpl.hpp', 'include/SAX/filter/TextCoalescer.hpp', 'include/SAX/filter/WhitespaceStripperFilter.hpp', 'include/SAX/filter/TextOnly.hpp', 'include/SAX/filter/NamespaceTracker.hpp', 'include/SAX/filter/XMLBaseTracker.hpp', 'include/SAX/helpers/XMLBaseSupport.hpp', 'include/SAX/filter/PYXWriter.hpp'],
 [('event forwarding', 'include/SAX/helpers/XMLFilterImpl.hpp')],
 'property-based testing: filter chains on generated documents, event trace compared with a reference transformation of the unfiltered trace', 'Event traces are generated by the parser and by driving the filters directly.')
prop('S07', 'Attribute collections behave as an ordered list of named attributes',
 '''After any sequence of additions, changes, removals, clears and copies, an attribute list reports exactly the attributes an ordered list model holds: length, and every
 value, type, qualified name, local name and URI, by index and by either kind of name; look-ups of absent names or out-of-range indexes report absence, and copies are independent.''',
 ['histories'], 'all operation sequences on an attribute list', 'Tests make a handful of fixed sequences.',
 ['include/SAX/helpers/AttributesImpl.hpp', 'include/SAX/helpers/AttributeListImpl.hpp', 'include/SAX/ext/Attributes2.hpp'],
 [('attribute storage', 'include/SAX/helpers/AttributesImpl.hpp')], 'stateful property-based testing against an ordered list model', 'Bounded sequence lengths.')
prop('S08', 'Namespace contexts resolve every prefix to its innermost declaration',
 '''After any sequence of context pushes, pops and prefix declarations, resolving a qualified name, looking up a prefix or URI, and listing declared prefixes give the answers
 of the innermost enclosing declaration: popping restores the previous bindings exactly, shadowed bindings are never reported,
 the default namespace applies to elements and never to attributes, and xml is always bound.''',
 ['histories'], 'all push/declare/pop/reset histories', 'Tests reach one or two levels of nesting.',
 ['include/SAX/helpers/NamespaceSupport.hpp'], [('context stack', 'include/SAX/helpers/NamespaceSupport.hpp')], 'stateful property-based testing against a stack-of-maps model', 'Bounded histories.')
prop('S09', 'Input sources own and release their streams exactly once',
 '''After any sequence of copying, assigning, resetting and destroying input sources, every stream handed over for ownership stays usable through each source that
 refers to it, is destroyed exactly once when the last such source lets go, and streams that were only lent are never destroyed.''',
 ['histories'], 'all sequences of copy, assign, self-assign, reset and destroy', 'Tests copy a source once.',
 ['include/SAX/IStreamHandle.hpp', 'include/SAX/InputSource.hpp'], [('shared stream ownership', 'include/SAX/IStreamHandle.hpp')], 'stateful property-based testing against an ownership model, under AddressSanitizer', 'Bounded histories.')

# ---------------------------------------------------------------- DOM
prop('D01', 'Tree editing keeps the tree consistent or leaves it untouched',
 '''After any sequence of appendChild, insertBefore, replaceChild and removeChild on any nodes of one or more documents, parent, child, sibling, owner-document and document-element
 links describe exactly the tree the DOM specification prescribes, moved nodes leave their old position, and fragments are emptied into place.
 An operation that the specification forbids (cycles, disallowed node kinds, second document element, foreign document, missing reference child) throws the matching DOM exception and changes nothing.''',
 ['histories'], 'all sequences of structural operations, legal and illegal', 'Tests apply one or two operations at a time to trees of two or three nodes.',
 ['include/DOM/Simple/NodeImpl.hpp', 'include/DOM/Simple/DocumentImpl.hpp', 'include/DOM/Simple/DocumentFragmentImpl.hpp'],
 [('child list maintenance', 'include/DOM/Simple/NodeImpl.hpp'), ('document constraints', 'include/DOM/Simple/DocumentImpl.hpp')],
 'stateful property-based testing: random operation sequences on the DOM and on an independent tree model, full structural comparison after every step', 'Bounded histories; sanitised build.')
prop('D02', 'Attributes of an element behave as one consistent map',
 '''After any sequence of setting, replacing and removing attributes by name, by namespace, through attribute nodes or through the attribute map, all access paths agree: values, presence tests, map length and indexing,
 owner element, specified flag and element look-up by id. At most one attribute exists per name, and forbidden operations (attribute in use elsewhere, foreign document, missing name, bad name or namespace) throw the matching exception and change nothing.''',
 ['histories'], 'all sequences of attribute operations', 'Tests call each accessor once or twice.',
 ['include/DOM/Simple/AttrMap.hpp', 'include/DOM/Simple/NamedNodeMapImpl.hpp', 'include/DOM/Simple/AttrImpl.hpp', 'include/DOM/Simple/AttrNSImpl.hpp', 'include/DOM/Simple/ElementImpl.hpp', 'include/DOM/Simple/ElementNSImpl.hpp'],
 [('attribute map', 'include/DOM/Simple/AttrMap.hpp'), ('named node map', 'include/DOM/Simple/NamedNodeMapImpl.hpp')],
 'stateful property-based testing against a map model', 'Bounded histories.')
prop('D03', 'Character data editing follows string semantics',
 '''Every character data operation (append, insert, delete, replace, substring, set, split, normalize and node value) has exactly the effect of the corresponding string operation on the node's data, out-of-range
 offsets throw an index error and change nothing, splitting inserts the tail as the next sibling, and normalizing merges adjacent text and drops empty text without touching CDATA sections or altering the text of any element.''',
 ['histories', 'inputs'], 'all operation sequences, offsets and counts', 'Tests use one fixed string and a few offsets.',
 ['include/DOM/Simple/CharacterDataImpl.hpp', 'include/DOM/Simple/TextImpl.hpp', 'include/DOM/Simple/CDATASectionImpl.hpp', 'include/DOM/Simple/NodeImpl.hpp'],
 [('character data', 'include/DOM/Simple/CharacterDataImpl.hpp'), ('split and normalize', 'include/DOM/Simple/TextImpl.hpp')],
 'stateful property-based testing against std::string', 'Bounded histories.')
prop('D04', 'Cloned and imported subtrees are equal and independent',
 '''Cloning or importing any node, shallow or deep, yields a parentless copy with the same names, namespaces, attributes, values and (when deep) descendants, owned by the target document, without changing the original.
 No later change to either copy is visible in the other.''',
 ['inputs', 'histories'], 'all trees, all nodes of them, deep and shallow, same and other document', 'Tests clone trees of a few nodes.',
 ['include/DOM/Simple/ElementImpl.hpp', 'include/DOM/Simple/AttrMap.hpp', 'include/DOM/Simple/DocumentImpl.hpp', 'include/DOM/Simple/NodeImpl.hpp'],
 [('clone and import', 'include/DOM/Simple/NodeImpl.hpp')], 'property-based testing: generated trees and mutations, structural comparison with the model', 'Generated trees of up to a few dozen nodes.')
prop('D05', 'Live node lists always show the current tree',
 '''At any point of any history of changes, a child list or an element list by tag name or by namespace and local name, whenever it was obtained and however often it was already read,
 has exactly the matching nodes of the current tree in document order, with the wildcard matching everything.''',
 ['histories'], 'all interleavings of changes and reads', 'Tests obtain a list, make at most one change, and read once.',
 ['include/DOM/Simple/ElementByTagImpl.hpp', 'include/DOM/Simple/NodeImpl.hpp'], [('change counting', 'include/DOM/Simple/ElementByTagImpl.hpp')],
 'stateful property-based testing: lists obtained early, random changes, comparison with recomputation', 'Bounded histories.')
prop('D06', 'Tree walkers visit exactly the accepted nodes in document order',
 '''For any tree, what-to-show mask and accepting, skipping or rejecting filter, every move of a tree walker lands on the node the DOM traversal specification prescribes, and a move that has nowhere to go returns null and stays.
 The walker never leaves its root, and visits from the root with repeated next-node calls every accepted node exactly once in document order.''',
 ['inputs', 'histories'], 'all trees x masks x filters x move sequences', 'Tests walk two fixed trees.',
 ['include/DOM/Traversal/TreeWalkerImpl.hpp', 'include/DOM/Traversal/TreeWalker.hpp', 'include/DOM/Traversal/DocumentTraversal.hpp'], [('walker moves', 'include/DOM/Traversal/TreeWalkerImpl.hpp')],
 'property-based testing against a transcription of the DOM Level 2 traversal rules', 'Generated trees of up to a few dozen nodes.')
prop('D07', 'DOM handles stay valid and memory is reclaimed',
 '''Whatever sequence of operations is performed, and in whatever order handles are released, every handle held by the user stays usable while held, including handles to removed, orphaned or replaced nodes and after the document handle itself is released,
 no memory is read after release or released twice, and once every handle is gone all memory has been reclaimed.''',
 ['histories'], 'all operation sequences and handle lifetimes', 'Tests never check memory and rarely hold handles to removed nodes.',
 ['include/DOM/Simple/NodeImpl.hpp', 'include/DOM/Simple/DocumentImpl.hpp', 'include/DOM/Proxy.hpp'], [('reference counting and orphans', 'include/DOM/Simple/DocumentImpl.hpp')],
 'stateful property-based testing under AddressSanitizer with allocation accounting', 'Bounded histories.')
prop('D08', 'Serialising a DOM and parsing it back yields an equivalent DOM',
 '''Writing any namespace-well-formed DOM document or subtree to a stream produces namespace-well-formed XML that parses to an equivalent tree: same elements, namespaces, local names, attributes, text, CDATA, comments and processing instructions,
 for any legal characters, including trees whose namespace declarations must be supplied by the serialiser.''',
 ['inputs'], 'all DOM trees, parsed or built through the API', 'No test serialises a tree and parses it back.',
 ['include/DOM/io/Stream.hpp', 'include/XML/escaper.hpp'], [('namespace fix-up on output', 'include/DOM/io/Stream.hpp')],
 'property-based testing: round trip', 'Generated trees of up to a few dozen nodes.')
prop('D09', 'Building a DOM from a parse loses and adds nothing',
 '''The document built from parsing any namespace-well-formed text has exactly the elements, attributes (with defaults and ids declared in the DTD), text, CDATA sections, comments, processing instructions, document type, entities and notations of that text, in order;
 the same builder object gives the same result however many documents it parsed before, and signals failure by an empty document when the text is malformed.''',
 ['inputs', 'histories'], 'all documents, all sequences of parses with one builder', 'Tests parse a dozen small documents, each once.',
 ['include/DOM/SAX2DOM/SAX2DOM.hpp'], [('SAX to DOM building', 'include/DOM/SAX2DOM/SAX2DOM.hpp')],
 'property-based testing: generated document model compared with the built DOM; reuse histories', 'Generated documents of up to a few dozen nodes.')

# ---------------------------------------------------------------- XPath
prop('X01', 'XPath location paths select the nodes XPath 1.0 prescribes',
 '''For any document, context node and location path (all axes, node tests, abbreviations, positional and boolean predicates, filter expressions and unions), evaluation returns exactly the set of nodes that the XPath 1.0 recommendation defines,
 including attribute and namespace nodes.''',
 ['inputs', 'programs'], 'all documents x context nodes x location paths', 'Tests evaluate a few hundred fixed expressions on three small documents.',
 ['include/XPath/impl/xpath_step.hpp', 'include/XPath/impl/xpath_axis_enumerator.hpp', 'include/XPath/impl/xpath_node_test.hpp', 'include/XPath/impl/xpath_expression.hpp', 'include/XPath/impl/xpath_parser.hpp', 'include/XPath/impl/xpath_union.hpp'],
 [('step evaluation', 'include/XPath/impl/xpath_step.hpp'), ('axes', 'include/XPath/impl/xpath_axis_enumerator.hpp')],
 'property-based testing: grammar-generated expressions on generated documents, compared with an independent reference evaluator', 'ASCII names in expressions; adjacent text nodes appear as one node as documented by the implementation.')
prop('X02', 'XPath operators and functions compute the XPath 1.0 values',
 '''Every arithmetic, comparison and boolean operator, conversion between strings, numbers, booleans and node-sets, and every supported core function gives the value the XPath 1.0 recommendation defines for all argument values,
 including NaN, infinities, signed zero, empty node-sets and non-ASCII text (where lengths and positions in strings count the storage units of the string type), and never raises an error for arguments of permitted types.''',
 ['inputs', 'programs'], 'all expressions over all argument values', 'Tests sample a few values per function.',
 ['include/XPath/impl/xpath_function.hpp', 'include/XPath/impl/xpath_object.hpp', 'include/XPath/impl/xpath_relational.hpp', 'include/XPath/impl/xpath_arithmetic.hpp', 'include/XPath/impl/xpath_logical.hpp', 'include/XPath/impl/xpath_value.hpp'],
 [('function library', 'include/XPath/impl/xpath_function.hpp'), ('value conversions and comparisons', 'include/XPath/impl/xpath_object.hpp')],
 'property-based testing: generated expressions compared with an independent reference evaluator', 'Known deviations (see known findings) are excluded by construction.')
prop('X03', 'XPath node-sets have no duplicates and keep document order',
 '''A node-set returned by evaluating any expression holds each node once, and reading it in order, taking its first node, its string or number value, or iterating after sorting gives the nodes in document order (or its exact reverse when it is marked as reverse),
 where document order is a total order consistent with the tree for all node kinds, including attributes, namespace nodes, and nodes of detached trees.''',
 ['inputs', 'programs'], 'all node-sets produced by any expression on any document', 'Tests look at single-node results.',
 ['include/XPath/impl/xpath_object.hpp', 'include/XPath/impl/xpath_union.hpp', 'include/XPath/impl/xpath_step.hpp'], [('node-set and document order', 'include/XPath/impl/xpath_object.hpp')],
 'property-based testing: invariants of returned node-sets against the pre-order numbering of the tree', 'Single-document comparisons plus detached subtrees.')
prop('X04', 'A match pattern matches exactly the nodes its selection would find',
 '''A node matches a compiled match pattern if and only if evaluating the pattern as an expression from some ancestor-or-self of the node selects it, for all patterns of child and attribute steps with / and //, documents and nodes; a pattern with alternatives matches what any of them matches, and each alternative carries the default priority XSLT 1.0 assigns to it.''',
 ['inputs', 'programs'], 'all patterns x documents x nodes', 'Tests match a few dozen fixed patterns against fixed nodes.',
 ['include/XPath/impl/xpath_match.hpp', 'include/XPath/impl/xpath_match_rewrite.hpp', 'include/XPath/impl/xpath_parser.hpp'], [('pattern rewriting', 'include/XPath/impl/xpath_match_rewrite.hpp')],
 'property-based testing: definition of matching evaluated by the reference evaluator and by the engine itself (metamorphic)', 'Generated patterns.')
prop('X05', 'Every XPath 1.0 expression compiles and everything else is refused',
 '''Any syntactically valid XPath 1.0 expression with ASCII names, with any spacing, abbreviation, quoting and operator-name ambiguity, compiles and means what the grammar says; any other sequence of tokens is refused with a syntax error, except that an operator name may be run together with its right operand.
 Compiling any string never crashes or hangs, and refusals leave the compiler usable.''',
 ['inputs', 'programs'], 'all strings', 'Tests compile well under a thousand fixed strings.',
 ['include/XPath/impl/xpath_grammar.hpp', 'include/XPath/impl/xpath_parser.hpp'], [('grammar', 'include/XPath/impl/xpath_grammar.hpp')],
 'property-based testing: expressions printed from syntax trees in many spellings, and token-level mutations judged by an independent recogniser', 'ASCII names.')
prop('X06', 'Variables, user functions and prefixes resolve to what the caller supplied',
 '''Evaluating an expression with variable references, user-supplied functions and prefixed names uses exactly the values, functions and namespaces the caller registered, at compile time for functions and prefixes and at evaluation time for variables; anything unregistered raises the documented error,
 and a compiled expression can be evaluated repeatedly, with any context and in any order, giving the same result as a freshly compiled one.''',
 ['inputs', 'histories'], 'all expressions x resolver contents x evaluation histories', 'Tests use one variable at a time.',
 ['include/XPath/impl/xpath_variable_resolver.hpp', 'include/XPath/impl/xpath_function_resolver.hpp', 'include/XPath/impl/xpath_namespace_context.hpp', 'include/XPath/impl/xpath_function_holder.hpp'], [('resolvers', 'include/XPath/impl/xpath_parser.hpp')],
 'property-based testing: expressions with substituted literals versus variables, recorded function calls, reuse histories', 'Generated expressions.')

# ---------------------------------------------------------------- XSLT
prop('T01', 'XSLT applies the template rule the conflict rules select',
 '''For any stylesheet (match patterns, explicit and default priorities, modes, imports, includes, named templates) and source document, every node processed by apply-templates, apply-imports or the built-in rules is handled by exactly the template
 rule that XSLT 1.0 conflict resolution selects, or by the built-in rule of its mode when there is none.''',
 ['inputs', 'programs'], 'all stylesheets x documents', 'The suite runs a fixed conformance catalogue with hand-written stylesheets.',
 ['include/XSLT/impl/xslt_compiled_stylesheet.hpp', 'include/XSLT/impl/xslt_template.hpp', 'include/XSLT/impl/xslt_precedence.hpp', 'include/XSLT/impl/handler/xslt_template_handler.hpp', 'include/XSLT/impl/handler/xslt_include_handler.hpp'],
 [('template dispatch', 'include/XSLT/impl/xslt_compiled_stylesheet.hpp')],
 'property-based testing: generated rule sets that emit traces, compared with a reference processor', 'Generated stylesheets of up to a few dozen rules.')
prop('T02', 'XSLT instructions produce the result tree XSLT 1.0 prescribes',
 '''Executing any stylesheet built from value-of, for-each, sort, if, choose, variable, param, with-param, call-template, copy, copy-of, element, attribute, text, comment, processing-instruction, literal elements and attribute value templates yields the result tree that the recommendation defines,
 with context node, position, size, current node and variable scope correct at every instruction, also after nested instructions have finished.''',
 ['inputs', 'programs'], 'all stylesheet programs x documents', 'Conformance tests exercise each instruction in isolation with fixed data.',
 ['include/XSLT/impl/xslt_for_each.hpp', 'include/XSLT/impl/xslt_sort.hpp', 'include/XSLT/impl/xslt_choose.hpp', 'include/XSLT/impl/xslt_variable_stack.hpp', 'include/XSLT/impl/xslt_execution_context.hpp', 'include/XSLT/impl/xslt_copy.hpp', 'include/XSLT/impl/xslt_element.hpp', 'include/XSLT/impl/xslt_attribute.hpp', 'include/XSLT/impl/xslt_inline_element.hpp'],
 [('instruction execution', 'include/XSLT/impl')],
 'property-based testing: generated stylesheet programs run by the engine and by a reference interpreter', 'Generated programs.')
prop('T03', 'XSLT output serialises the result tree faithfully in every sink',
 '''For any transformation, text written by the XML output method parses back to the result tree with all namespaces intact, the text method writes exactly the text, the chosen CDATA elements and escaping switches change only the lexical form,
 and the DOM and stream outputs of the same transformation describe the same tree, also when a sink is used again.''',
 ['inputs', 'configurations'], 'all result trees x output settings x sinks', 'Tests compare DOM output with a fixed expected document.',
 ['include/XSLT/impl/xslt_sink.hpp', 'include/XSLT/impl/xslt_output.hpp', 'include/XSLT/impl/xslt_namespace_stack.hpp', 'include/XSLT/impl/handler/xslt_output_handler.hpp'], [('output sinks', 'include/XSLT/impl/xslt_sink.hpp'), ('namespace fix-up', 'include/XSLT/impl/xslt_output.hpp')],
 'property-based testing: round trip and cross-sink agreement on generated result trees', 'Generated programs.')
prop('T04', 'XSLT keys find exactly the matching nodes',
 '''For all key declarations (several per name, any pattern and use expression, across imported modules), documents and values, the key function returns exactly the nodes of the document that match a declared pattern and have the value among their key values, each once and in document order,
 wherever and however often it is called, for executions on different and on changed documents alike.''',
 ['inputs', 'programs'], 'all key declarations, documents and look-up values', 'Conformance tests with fixed data.',
 ['include/XSLT/impl/xslt_key.hpp', 'include/XSLT/impl/xslt_functions.hpp', 'include/XSLT/impl/xslt_compiled_stylesheet.hpp'], [('key tables', 'include/XSLT/impl/xslt_key.hpp')],
 'property-based testing against a brute-force reference', 'Generated documents.')
prop('T05', 'Invalid stylesheets are refused and compiled ones are reusable',
 '''Compiling a stylesheet that breaks the rules (unknown instruction or attribute, missing or illegal attribute, misplaced element or text, bad expression, malformed XML) yields an error and no stylesheet, and compiling any valid one succeeds, whatever the compiler compiled before.
 One compiled stylesheet executed repeatedly, on any documents and with any parameters, gives each time the result a freshly compiled one gives, also after an execution that failed.''',
 ['inputs', 'histories'], 'all valid and single-fault stylesheets, all execution histories', 'Tests compile each stylesheet once and execute it once.',
 ['include/XSLT/impl/xslt_stylesheet_compiler.hpp', 'include/XSLT/impl/xslt_stylesheet_parser.hpp', 'include/XSLT/impl/handler/xslt_item_container_handler.hpp', 'include/XSLT/impl/xslt_compiled_stylesheet.hpp'], [('stylesheet validation', 'include/XSLT/impl/handler')],
 'property-based testing: fault injection into valid stylesheets; execution histories versus fresh compilation', 'Generated stylesheets.')

# ---------------------------------------------------------------- Taggle
prop('G01', 'The HTML parser turns any text into a balanced, namespaced event stream',
 '''For any sequence of characters the HTML parser terminates without errors or memory faults and delivers one document's worth of properly nested element events with legal names and no duplicate attributes, wrapped in a single root element,
 such that writing the events yields well-formed XML, and parsing is independent of what the parser object parsed before and of how the stream delivers the text.''',
 ['inputs', 'histories'], 'all strings, in particular broken markup', 'Tests parse fixed HTML files.',
 ['include/Taggle/impl/Parser.hpp', 'include/Taggle/impl/html/HTMLScanner.hpp', 'include/Taggle/impl/Element.hpp', 'include/Taggle/impl/ElementType.hpp'], [('tag repair', 'include/Taggle/impl/Parser.hpp'), ('scanner', 'include/Taggle/impl/html/HTMLScanner.hpp')],
 'property-based testing and fuzzing: random tag soup, structural invariants on the event stream', 'Generated inputs up to a few kilobytes.')
prop('G02', 'Well-nested HTML passes through the HTML parser unchanged',
 '''When the input is HTML whose elements are all closed, correctly nested and allowed where they stand, the delivered events are exactly those elements, attributes (with entities expanded), text and comments in order, plus only the elements the HTML schema requires to be implied,
 and white space, entity and character references are decoded as documented.''',
 ['inputs'], 'all well-nested HTML documents', 'Tests parse fixed HTML files.',
 ['include/Taggle/impl/Parser.hpp', 'include/Taggle/impl/html/HTMLScanner.hpp', 'include/Taggle/impl/html/HTMLSchema.hpp', 'include/Taggle/impl/SchemaImpl.hpp'], [('scanner', 'include/Taggle/impl/html/HTMLScanner.hpp')],
 'property-based testing: generated HTML model compared with delivered events', 'A subset of HTML elements.')

# ---------------------------------------------------------------- utilities
prop('U01', 'Character encodings convert every character exactly, in any buffer split',
 '''Each supplied encoding converter (UTF-8, UCS-2, UTF-16 both byte orders, ISO 8859-1, Base64, ROT13 and their combinations) encodes and decodes every representable character to the bytes the encoding defines and back, gives the same result however input and output
 are split into buffers, reports malformed input as an error, and never writes outside the buffers it is given. A character ISO 8859-1 lacks becomes a question mark; Base64 pads at the end of each piece of input and ignores foreign characters when decoding.''',
 ['inputs'], 'all strings, all splittings of source and destination buffers', 'Tests convert a few strings in one piece.',
 ['src/convert', 'include/convert'], [('codecvt facets', 'src/convert')],
 'property-based testing: round trip, independent encoder as oracle, metamorphic splitting', 'Whole Unicode range for UTF-8, the Basic Multilingual Plane for UTF-16; no surrogate code points; codecvt::length not covered.')
prop('U02', 'Converting streams deliver exactly the converted bytes',
 '''Reading or writing any text through a converting stream or stream adaptor, with any pattern of reads, put-backs, writes, flushes and stream changes the interface allows, delivers the conversion of exactly the bytes that passed, with nothing lost, repeated or reordered at buffer boundaries.''',
 ['inputs', 'histories'], 'all texts longer and shorter than the internal buffers x read/write patterns', 'Tests pass short strings.',
 ['include/io/convertstream.hpp', 'include/io/convert_adaptor.hpp'], [('buffer refill and flush', 'include/io/convert_adaptor.hpp')],
 'property-based testing: differential against one-shot conversion', 'Texts of up to a few buffers.')
prop('U03', 'URIs are split and resolved by the generic URI rules',
 '''Any URI reference is split into scheme, host, port and path (with query and fragment) such that printing it gives an equivalent reference, and resolving any reference against any absolute hierarchical base gives the target defined by generic URI syntax, with dot segments removed.''',
 ['inputs'], 'all URIs and relative references', 'Tests use a list of fixed URIs.',
 ['src/io/uri.cpp', 'include/io/uri.hpp'], [('URI parsing and resolution', 'src/io/uri.cpp')],
 'property-based testing: RFC 3986 reference resolver as oracle', 'Hierarchical URIs without user information, and local paths.')
prop('U04', 'Name and character classification follow the XML recommendation',
 '''Every code point is classified as letter, digit, combining character, extender, name start, name character, white space or XML character exactly as the XML 1.0 productions say; a string is accepted as an NCName or qualified name exactly when those productions allow (a byte of a multi-byte character in a narrow string counts as a letter), and qualified names split into prefix, local name and namespace
 accordingly, or raise an error.''',
 ['inputs'], 'all code points and all strings', 'Tests check a few characters and names.',
 ['src/XML/XMLCharacterClasses.cpp', 'include/XML/QName.hpp', 'include/XML/XMLCharacterClasses.hpp', 'include/text/UnicodeCharacters.hpp'], [('character tables', 'src/XML/XMLCharacterClasses.cpp')],
 'property-based testing plus exhaustive enumeration of code points against independent tables', 'Code points in blocks of 256 over the whole range; oracle: the tables of libxml2.')
prop('U05', 'Text helpers normalise and escape exactly',
 '''For any string, white-space normalisation yields the words of the string joined by single spaces and is idempotent, and escaping text or attribute values yields markup that an XML parser turns back into the original string and changes nothing that needs no escaping.''',
 ['inputs'], 'all strings', 'Tests check a few strings.', ['include/text/normalize_whitespace.hpp', 'include/XML/escaper.hpp'], [('normalisation', 'include/text/normalize_whitespace.hpp'), ('escaping', 'include/XML/escaper.hpp')],
 'property-based testing: reference implementation and parser round trip', 'Generated strings.')

prop('U06', 'What a system id or a socket stream opens is read exactly as it was sent',
 '''Over any history of writes, flushes, reads, put-backs, closing and opening again, a socket stream delivers to its peer exactly the bytes written and to its reader exactly the bytes the peer sent, in order, however they are divided between packets and calls, and a connection that cannot be made or has gone is reported through the stream state.
 Opening a source uses its byte stream if it has one, otherwise the resolver registered for the scheme, otherwise the file; an http URI sends a well-formed request for its path and query and yields exactly the body of the response, whatever the header looks like.
 Streams that were opened are closed, the caller's are left alone.''',
 ['inputs', 'histories', 'faults'], 'all byte sequences x all divisions into packets x read/write histories x short and interrupted system calls', 'Tests never open a socket.',
 ['include/io/socket_stream.hpp', 'src/SAX/helpers/InputSourceResolver.cpp', 'include/SAX/helpers/InputSourceResolver.hpp'], [('socket buffer', 'include/io/socket_stream.hpp'), ('resolvers', 'src/SAX/helpers/InputSourceResolver.cpp')],
 'property-based testing: model of a duplex byte channel, scripted loopback peer, fault injection into send and recv', 'One connection at a time, at most 50 KB unread; char streams.')

prop('W01', 'The result is the same whatever string class is used',
 '''For any document, edit history, expression, stylesheet or tag soup, parsing, filtering, writing, the DOM, XPath, XSLT and HTML parsing give, for std::string, std::wstring and a string class of the caller's own, the same events, trees, values, output and errors character for character, where std::string holds UTF-8 and std::wstring one character per unit.
 Operations that count units (offsets into character data, string-length, substring, translate, sorting) agree for text within ASCII.''',
 ['inputs', 'histories'], 'all documents, expressions, stylesheets and edit histories x string classes', 'Tests run mostly fixed ASCII inputs through the other string classes.',
 ['include/Arabica/StringAdaptor.hpp', 'include/SAX', 'include/DOM', 'include/XPath', 'include/XSLT', 'include/Taggle'], [('string adaptors', 'include/Arabica/StringAdaptor.hpp')],
 'property-based testing: differential between template instantiations', 'Expat back end; the writer and the HTML parser only for the two standard classes; no locators from the HTML parser.')

def main():
    claimed = set(x for x in open(os.path.join(ROOT, 'tools', 'claimed.txt')).read().split())
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
            if p['observe']: a['observe_at'] = p['observe']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=a)) + '\n')
    checks = []; na = []
    for p in P:
        if p['id'] in claimed:
            checks.append(dict(property=p['id'], quick_cmd='python3 tools/run_check.py %s' % p['id'],
                               thorough_cmd='python3 tools/run_check.py %s --tier thorough' % p['id'],
                               technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
