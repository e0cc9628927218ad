"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe), 'hook_needed': hook,
        }})


U = 'pylib/uxml/'
X = 'pylib/uxml/uxpath/'

prop('C01', 'MicroXML events say exactly what the document says',
     'For every well-formed MicroXML document (element names and attributes using any allowed name characters, any legal '
     'text, named and hexadecimal character references, either quote, any allowed white space in tags), the parser\'s events are exactly '
     'the document\'s start tags (with name, attributes with decoded values, and the names of the open ancestors), text (decoded, line '
     'ends normalised to a single LF) and end tags, in document order. Nothing is lost, added, merged across tags, reordered or decoded twice.',
     ['inputs'], 'all well-formed MicroXML documents without comments or empty-element tags (the parser has never supported these two: recorded as a known finding)',
     'The existing tests parse about twenty short fixed documents in ASCII; the guarantee is over every character class boundary, reference form, quoting, white space layout and nesting.',
     [U + 'parser.py'], [('coroutine state machine', U + 'parser.py: parser'), ('text and reference decoding', U + 'parser.py: handle_cdata')],
     [('curr_state / window / pos', 'where in the document the parser is', U + 'parser.py: parser'), ('element_stack', 'open ancestors', U + 'parser.py: parser')],
     ['amara3.uxml.parser.parse', 'amara3.uxml.parser.parser coroutine with a handler'])

prop('C02', 'How a document is cut into fragments never changes what is parsed',
     'For every input text and every way of cutting it into consecutive fragments (including single characters and empty fragments, with cuts inside '
     'tags, names, attribute values, references and line ends), feeding the fragments to the incremental MicroXML parser delivers the same events as parsing the text in one go. '
     'If the whole text is rejected then so is every fragmentation of it.',
     ['inputs', 'histories'], 'all texts, well-formed or not, times all fragmentations, fed through parsefrags or directly to the coroutine, with the end signalled alone or with the last fragment',
     'Tests use a handful of fixed cuts; each document has exponentially many, and backtracking bugs only show for a cut at one specific place.',
     [U + 'parser.py'], [('backtracking when input runs out', U + 'parser.py: parser (need_input, backtrackpos)'), ('parsefrags', U + 'parser.py')],
     [('window / pos / backtrackpos', 'unconsumed input kept between fragments', U + 'parser.py: parser')],
     ['amara3.uxml.parser.parsefrags', 'amara3.uxml.parser.parser'])

prop('C03', 'Malformed MicroXML is rejected, promptly and without losing anything',
     'Any input that is not well-formed MicroXML (mismatched, unclosed or extra tags, missing or bad names, duplicate or unquoted attributes, bad references, illegal characters, '
     'junk before or after the document element, truncation at any point) makes the MicroXML parser and tree builder raise an exception after finitely many steps, rather than return a result or hang. '
     'Where an input outside the strict grammar is tolerated, no character of its content is silently dropped.',
     ['inputs'], 'all strings over Unicode; strings differing from well-formed documents by a few edits in particular',
     'Tests contain no more than a few rejected inputs; malformed inputs are unbounded and each reaches a different state of the hand-written state machine.',
     [U + 'parser.py', U + 'tree.py'], [('error branches of the state machine', U + 'parser.py: parser'), ('character classes', U + 'parser.py: handle_cdata'), ('end of input check', U + 'parser.py: parser')],
     [], ['amara3.uxml.parser.parse', 'amara3.uxml.tree.parse'])

prop('C04', 'The tree built from MicroXML is the document',
     'For every well-formed MicroXML document the tree builder returns its document element, with exactly the document\'s elements, attributes (in order, with decoded values) and text in document '
     'order, every node\'s parent being the element that has it as a child, and element values being the concatenated descendant text. A builder can be used for any number of documents, also after one it '
     'rejected, each result being independent of the ones before.',
     ['inputs', 'histories'], 'all well-formed documents; all sequences of good and bad documents given to one builder',
     'Tests build some fixed small trees with one builder use each and mostly look at one or two nodes.',
     [U + 'tree.py', U + '__init__.py'], [('treebuilder', U + 'tree.py: treebuilder'), ('weak parent references', U + 'tree.py: node.xml_parent')],
     [('_root / _parent', 'tree under construction', U + 'tree.py: treebuilder')], ['amara3.uxml.tree.parse', 'amara3.uxml.parse', 'tree.treebuilder.parse'])

prop('C05', 'Serialising a tree and parsing it back gives the same tree',
     'For every MicroXML tree with legal names and characters, however it was made, xml_encode() (and xml_write) yields text which both the MicroXML parser and any XML 1.0 parser read back as an equal '
     'tree: same names, same attributes with the same values including quotes, markup characters, tabs and line feeds, and same text. Serialising that again yields the same text.',
     ['inputs'], 'all MicroXML trees; XML 1.0 read-back for names that are also XML 1.0 names',
     'Tests serialise a few trees without any of the difficult values; the escaping rules interact with each parser\'s rules for every character.',
     [U + 'tree.py'], [('xml_encode with escape and quoteattr', U + 'tree.py: element.xml_encode')], [], ['element.xml_encode', 'element.xml_write', 'tree.parse', 'xml.parsers.expat'])

prop('C06', 'XML 1.0 is reduced to MicroXML faithfully',
     'For every well-formed XML 1.0 document, parsing via the XML module gives the MicroXML events and tree obtained by replacing element and attribute names by their local names and dropping namespace declarations, '
     'comments, processing instructions and the document type, with CDATA sections, character references and internal entities replaced by the text they stand for, and each event carrying the local names of its open ancestors. '
     'Documents that are not well-formed XML (including truncated ones) are rejected, and a builder can be reused, each result being independent of earlier documents.',
     ['inputs', 'histories'], 'all XML 1.0 documents (str or bytes, UTF-8 or UTF-16), with local attribute names distinct within an element; all sequences of documents given to one builder',
     'Tests parse two fixed XML documents without prefixes, entities or CDATA, once each.',
     [U + 'xml.py'], [('expat callbacks', U + 'xml.py: expat_callbacks'), ('parse', U + 'xml.py: parse'), ('treebuilder', U + 'xml.py: treebuilder')],
     [('_elem_stack', 'open ancestors', U + 'xml.py: expat_callbacks')], ['amara3.uxml.xml.parse', 'amara3.uxml.xml.treebuilder.parse'])

prop('C07', 'Tree edits keep children and parents consistent',
     'After every sequence of appending, inserting (at any position) and removing elements and text, the children of each element are exactly those put there and not removed, in order, each node\'s parent is the element '
     'that has it as child (none for the top and for removed nodes), and values and serialisation reflect the current tree. Removing takes out precisely the given node even if it has equal siblings, and removing something that is not a child raises ValueError and changes nothing.',
     ['histories'], 'all finite sequences of edits over any number of trees, including moves of removed subtrees between trees',
     'Tests perform one append or remove on a small tree; the guarantee is over edit histories.',
     [U + 'tree.py'], [('xml_append / xml_insert / xml_remove', U + 'tree.py: element')], [('xml_children and _xml_parent', 'both directions of the tree', U + 'tree.py')],
     ['element.xml_append', 'element.xml_insert', 'element.xml_remove', 'xml_children', 'xml_parent', 'xml_value', 'xml_encode'])

prop('C08', 'Tree selectors yield exactly the matching nodes in document order',
     'On every tree, descendants, select_elements, select_name, select_name_pattern, select_value, select_attribute and following_siblings yield exactly the elements (for following_siblings, also text) that their documentation '
     'describes, each once, in document order, whether given an element or another source of nodes. They do not modify the tree.',
     ['inputs'], 'all trees, nodes in them, names, regular expressions, values and attribute names; sources being elements or iterators',
     'Tests apply some selectors to one or two fixed trees.',
     [U + 'treeutil.py'], [('selector generators', U + 'treeutil.py')], [], ['amara3.uxml.treeutil functions'])

prop('C09', 'select_pattern yields exactly the descendants matching the pattern',
     'For every tree and every pattern made of names, "*", "**" (any number of levels, including none) and tuples of alternative names, ending in a step other than "**", select_pattern yields exactly the descendant elements whose path from the given node '
     'matches the pattern, each once, in document order. This includes matches nested within other matches, and those only reached by giving up an earlier partial match.',
     ['inputs'], 'all trees and all such patterns',
     'Tests use a few patterns on one tree where the first partial match is always the right one.',
     [U + 'treeutil.py'], [('pattern state functions', U + 'treeutil.py: _prep_pattern, select_pattern')], [], ['amara3.uxml.treeutil.select_pattern'])

prop('C10', 'Streaming senders deliver each matching subtree, complete and in order',
     'For every document and pattern (or list of patterns with a sink each), a sender gives each sink exactly the outermost elements whose path from the document node matches its pattern, in document order, each once, as soon as its end tag was read and as a '
     'complete subtree (attributes, text, descendants, parents) without parent. This is so for the MicroXML, XML (string or file input) and HTML senders, and patterns do not influence each other, nor do documents, including rejected ones, which were handled by the same MicroXML or HTML sender before.',
     ['inputs', 'configurations'], 'all documents, and lists of patterns of names, "*", "**" and tuples of alternative names, ending in a step other than "**"',
     'Tests use one pattern at a time on one small document; no test uses two patterns, or nested or backtracking matches.',
     [U + 'treeiter.py', U + 'xmliter.py', U + 'html5iter.py'], [('pattern matching over the event stack', U + 'treeiter.py: sender._match_state'), ('subtree building', U + 'treeiter.py: sender._handler')],
     [('_evstacks / _building_depths / _parents', 'per-pattern progress', U + 'treeiter.py: sender')], ['treeiter.sender', 'xmliter.sender', 'html5iter.sender'])

prop('C11', 'Processed subtrees and documents are released',
     'While a document is streamed, the number of delivered subtrees still held by the library stays below a small constant however many were delivered, once the sink lets go of them. Likewise a tree becomes collectable once the user drops it, even after XPath queries '
     '(by whatever entry point and with a compiled expression that lives on), HTML parsing, lax parsing or streaming of it.',
     ['inputs', 'histories'], 'all documents, patterns and query histories, releasing everything the user holds in any order',
     'The tests for this check one document of fixed size and do not query it.',
     [U + 'treeiter.py', U + 'tree.py', X + 'xast.py', U + 'html5.py'], [('weak parent references', U + 'tree.py: node'), ('root node cache', X + 'xast.py: root_node'), ('_roots / _parents', U + 'treeiter.py: sender')],
     [], ['weak references to delivered or queried elements after gc.collect()'])

prop('C12', 'Writers produce well-formed markup that reads back as what was written',
     'For every sequence of balanced start_element / text / end_element calls (with any attributes, and empty elements) on the raw writer, and for every tree passed to write(), the output is well-formed and parses back to exactly those elements, attributes and text. '
     'With the namespacer writer the output is namespace-well-formed XML in which elements and attributes have the prefixes and namespaces of the mapping, declarations come once on the top element, and reducing it to MicroXML gives the original tree.',
     ['inputs', 'configurations'], 'all trees with legal names and characters, and all consistent prefix and name mappings',
     'Tests write one or two fixed small documents.',
     [U + 'writer.py'], [('raw', U + 'writer.py: raw'), ('namespacer', U + 'writer.py: namespacer'), ('write', U + 'writer.py: write')], [('_first_element / _ns_handled', 'whether to declare namespaces', U + 'writer.py: namespacer')],
     ['writer.raw', 'writer.namespacer', 'writer.write'])

prop('C13', 'Pretty-printing only ever adds or changes white space',
     'For every tree, make_pretty, xml_encode with indent, and the raw writer with indent leave elements, attributes, order and every text run unchanged except for white space next to tags (or, with make_pretty, in text nodes that are entirely white space); make_pretty in particular changes no text node that is not entirely white space, and keeps parents right. '
     'make_pretty puts every child element of an element without other text on its own line, indented by its depth times the given indent.',
     ['inputs'], 'all trees (including mixed content and adjacent text nodes) and all white space indent strings',
     'Tests pretty-print one tree with the default indent.',
     [U + 'treeutil.py', U + 'tree.py', U + 'writer.py'], [('make_pretty', U + 'treeutil.py'), ('indent in xml_encode', U + 'tree.py'), ('indent in raw', U + 'writer.py')], [], ['treeutil.make_pretty', 'element.xml_encode(indent)', 'writer.raw(indent)'])

prop('C14', 'HTML is parsed into the tree the HTML5 algorithm prescribes',
     'For every text, well-formed HTML or any tag soup, html5.parse gives the same tree (local element names, attributes, text and nesting, with comments ignored) as the HTML5 parsing algorithm of html5lib with its own element tree, with all parents consistent and no exception. '
     'The result can be serialised, queried and modified like any MicroXML tree.',
     ['inputs'], 'all texts, in particular nests of misplaced formatting, table, form, select, template, foreign (svg, math) and unclosed tags',
     'Tests parse two or three nearly regular pages; the tree construction callbacks that move, clone and reparent nodes run only for misnested markup.',
     [U + 'html5.py'], [('html5lib tree builder interface', U + 'html5.py: node, element, treebuilder')], [], ['amara3.uxml.html5.parse'])

prop('C15', 'Lax XML parsing of well-formed XML equals strict parsing',
     'For every well-formed XML document with unprefixed lower-case names that mean nothing in HTML, without empty-element tags or CDATA sections (which HTML does not have), parse_lax_xml gives the same elements, attributes, text and nesting as the strict parsers, as a top element detached from any wrapper. Leaving out end tags at the end of such a document only '
     'closes the open elements there.',
     ['inputs'], 'all such documents, and their truncations after complete tags or text',
     'Tests use one document.',
     [U + 'html5.py'], [('parse_lax_xml', U + 'html5.py')], [], ['amara3.uxml.html5.parse_lax_xml'])

prop('C16', 'XPath location paths select exactly the nodes they denote',
     'For every tree, context node and location path (absolute or relative, any of the supported axes, name, "*", text() and node() tests, ".", "..", "@" and "//"), evaluation yields exactly the nodes XPath 1.0 defines, a step being applied to each node selected by the '
     'path before it in turn. From one context node, forward axes yield document order and reverse axes (ancestor, preceding) reverse document order; the nodes are those of the tree itself, and evaluation always ends.',
     ['inputs', 'programs'], 'all trees, context nodes (root, elements, text) and location paths; excluding sibling and following/preceding axes from attributes, and the root in /node()',
     'Tests have some thirty paths on five tiny trees using four of the twelve axes.',
     [X + 'xast.py', X + 'parserules.py', X + 'lexrules.py'], [('step', X + 'xast.py: step'), ('absolute_path', X + 'xast.py'), ('name_test / node_type_test', X + 'xast.py'), ('root_node', X + 'xast.py')],
     [], ['uxpath.parse(...).compute(context)', 'uxpath.qquery'])

prop('C17', 'XPath predicates, operators and sequences have their defined meaning',
     'For every tree and every expression built from predicates (boolean, numeric position and existence, applied in turn to the sequence before them), comparisons, and, or, unary minus, union, sequences, literals and variables, evaluation yields what XPath 1.0 semantics over sequences define. '
     'In particular comparisons are existential over items with the XPath type conversions, and/or yield booleans with empty sequences counting as false, and unions are in document order without duplicates for every kind of node.',
     ['inputs', 'programs'], 'all trees and well-typed expressions over these constructs; excluding arithmetic (not implemented), last() and position(), ordering comparisons of two strings, and comparing booleans with several items',
     'Tests cover single predicates and three comparisons, with no type conversion and no empty operands.',
     [X + 'xast.py'], [('binary_expression', X + 'xast.py'), ('predicated_expression', X + 'xast.py'), ('casts', X + 'xast.py: to_string, to_number, to_boolean'), ('Sequence', X + 'xast.py')], [], ['uxpath.parse(...).compute(context)'])

prop('C18', 'XPath functions compute what their documentation says',
     'For every argument (literals, computed expressions, nodes, empty sequences, and omitted arguments where allowed), name, count, string, concat, starts-with, contains, substring-before, substring-after, substring, string-length, boolean, not, true, false, number, for-each and lookup '
     'return what their documentation and XPath 1.0 define, including NaN, infinities, zero, empty strings, non-integer positions, number formatting and any Unicode text. Functions which the caller provides are called likewise, wherever they occur in an expression, with the variables, functions and lookup tables given.',
     ['inputs', 'programs'], 'all argument values and combinations of these functions',
     'Tests call five of the functions with one or two arguments each.',
     [X + 'functions.py', X + 'xast.py'], [('built-in functions', X + 'functions.py'), ('casts', X + 'xast.py')], [], ['uxpath expressions calling the functions'])

prop('C19', 'XPath evaluation has no side effects and no memory',
     'For every history of parsing expressions (including invalid ones), evaluating them (also only partly, nested, or interleaved) and editing the trees in between, each evaluation gives what a freshly parsed expression gives on a fresh copy of the current tree. '
     'Evaluation changes neither the tree nor the expression nor the context.',
     ['histories'], 'all such histories over several trees and expressions sharing the parser, contexts and compiled expressions',
     'Every test evaluates an expression once on an unmodified tree.',
     [X + '__init__.py', X + 'xast.py'], [('shared lexer and parser', X + '__init__.py'), ('root node cache', X + 'xast.py: root_node'), ('expression objects', X + 'xast.py')],
     [('root_node._cache', 'root node per tree', X + 'xast.py'), ('lexer / parser', 'module-level PLY state', X + '__init__.py')], ['results of repeated evaluations'])

prop('C20', 'A serialised XPath expression means the same as the original',
     'For every expression accepted by the XPath parser, serialize() of the parsed expression gives text that parses again to an expression with the same results on every tree and context. Serialising that again gives the same text, and repr() of the parts never fails.',
     ['programs', 'inputs'], 'all expressions of the grammar, including those with quotes in literals, numbers, negation, predicates on any expression, sequences, functions and axes',
     'No test serialises an expression.',
     [X + 'xast.py'], [('_serialize methods', X + 'xast.py')], [], ['xast.serialize', 'uxpath.parse'])

prop('C21', 'All ways to run an XPath query agree',
     'For every document, expression and variables, running the query through qquery on text, on UTF-8 bytes or on a parsed tree, through xml_xpath on the tree, with the expression as text or already parsed, or through parse and context (by compute or by calling the expression), yields corresponding results in the same order. '
     'A query from an inner element (by qquery or xml_xpath) is evaluated relative to that element.',
     ['inputs', 'configurations'], 'all documents, elements in them, expressions, and ways to call',
     'Tests use parse and context only, plus one xml_xpath doc example.',
     [X + '__init__.py', U + 'tree.py'], [('qquery', X + '__init__.py'), ('context', X + '__init__.py'), ('xml_xpath', U + 'tree.py: node.xml_xpath')], [], ['qquery', 'node.xml_xpath', 'context + compute'])

prop('C22', 'The MicroXML scanner tokenises documents without loss, run after run',
     'For every well-formed MicroXML document the scanner\'s tokens, in order, give exactly the tag names, attribute names, attribute values, text, references and comments of the document. A run is not affected by earlier runs, whether these were completed, abandoned or on malformed text.',
     ['inputs', 'histories'], 'all well-formed documents without empty-element tags (comments without markup characters), and all sequences of runs',
     'No test uses the scanner.',
     [U + 'lex.py'], [('lexer rules and states', U + 'lex.py'), ('run', U + 'lex.py: run')], [('lexer', 'module-level PLY lexer with its current state', U + 'lex.py')], ['amara3.uxml.lex.run'])

prop('C23', 'isxml recognises XML by signature or first character, safely',
     'For every byte string, isxml returns True if it starts with one of the signatures for an XML declaration or "<" in another encoding, and otherwise whether its text, decoded according to its byte order mark or else as UTF-8, has "<" as its first character after XML white space (False if it cannot be decoded). '
     'It neither raises nor reads outside the given bytes, whatever their length.',
     ['inputs'], 'all byte strings, of any length including none, with or without byte order marks, NULs and invalid sequences',
     'No test calls isxml.',
     ['clib/xmlstring.c', U + '__init__.py'], [('string_isxml', 'clib/xmlstring.c')], [], ['amara3.uxml.isxml', 'amara3.cmodules.cxmlstring.isxml'])

prop('C24', 'The microx command prints exactly the query results',
     'For every set of XML files and options, microx prints, one item per line and in order, exactly the items selected by --expr (from each document), --match (from each element in turn) and --foreach (from each item), cut off after --limit items of the --expr or --match results, and with --partition querying each outermost partition element as a '
     'document of its own. --find-text prints, for each text node which contains the given text, in document order, the path of element names (with the attributes of --show-attrs) from the top to the element it is in. The --html and --lax options only change how the sources are parsed, and sources do not influence each other.',
     ['inputs', 'configurations'], 'all files, expressions and option combinations (--limit with one source and no partition)',
     'No test runs microx.',
     ['exec/microx', U + 'xml.py', U + 'xmliter.py', U + 'html5.py'], [('run', 'exec/microx: run'), ('argument handling', 'exec/microx')], [], ['standard output or --out file of exec/microx'])

prop('C25', 'Equivalent XPath spellings give equal results',
     'Rewriting an expression by changing insignificant white space, quote style, number spelling, or abbreviated versus full syntax (child, attribute, self::node(), parent::node(), and, for the set of nodes selected, descendant-or-self::node()), or by adding parentheses according to the XPath precedence rules, never changes its results; nor does consistently renaming elements, attributes or variables in '
     'tree and expression, be it to other Unicode names or to words like "or", "and", "div", "mod" or axis names. Text that is not an expression is rejected with an exception instead of being taken for another one.',
     ['programs', 'inputs'], 'all expressions and trees, rewritings and renamings; all token sequences for rejection',
     'Tests spell every expression in one way, with ASCII names.',
     [X + 'lexrules.py', X + 'parserules.py'], [('tokens', X + 'lexrules.py'), ('grammar and precedence', X + 'parserules.py')], [], ['uxpath.parse(...).compute(context)'])

prop('C26', 'Interleaved parses do not influence each other',
     'Any number of incremental parsers, tree builders, streaming senders, writers and lazily consumed queries and selections can be in progress at the same time in one thread, and whatever the order in which their steps (fragments, documents, calls) are interleaved, including abandoning or failing some, each gives the same outcome as if run alone; likewise a tree builder used for several documents gives for each what a new one would.',
     ['schedules', 'histories'], 'all interleavings of the steps of any set of such objects',
     'Tests run one parser, sender or writer at a time; state shared by accident (mutable defaults, class or module level state) goes unnoticed.',
     [U + 'parser.py', U + 'tree.py', U + 'treeiter.py', U + 'xmliter.py', U + 'xml.py', U + 'writer.py'], [('per-object state', U + 'parser.py, tree.py, treeiter.py, xmliter.py, writer.py')], [], ['outcomes of each object'])

prop('C27', 'Threads do not influence each other',
     'Several threads can at the same time parse documents (amara3.uxml.parse, tree.parse, the event parsers, the XML and HTML builders), stream with senders, write, and parse and evaluate XPath expressions and selections, each with parser, builder, sender and writer objects of its own; trees and compiled expressions may be shared as long as they are only read. Wherever threads are interrupted, each gets the outcome it would get alone.',
     ['schedules'], 'all interruptions between lines of the library in any number of threads',
     'Tests use one thread; module-level parsers, lexers, builders and caches fail only when a thread is interrupted at the wrong line.',
     [U + '__init__.py', U + 'parser.py', U + 'tree.py', U + 'treeiter.py', U + 'xmliter.py', U + 'xml.py', U + 'html5.py', U + 'writer.py', U + 'uxpath/__init__.py'],
     [('lexer and parser of XPath, shared by all threads', U + 'uxpath/__init__.py: parse'), ('parse, as exported', U + '__init__.py')], [('module-level lexer and builder', U + 'uxpath/__init__.py, __init__.py')], ['outcomes in each thread'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
