'''MicroXML events say exactly what the document says'''
from hypothesis import strategies as st

from vlib import gen, sut
from vlib.harness import Sub, oracle, same, fail

RULE = ('Documents are made by rendering a random tree with random layout (white space in tags, quotes, references, line '
        'ends); the expected events come from the tree. Non-trivial: more than one element, and text or attributes. '
        'charclass: all characters of a block of code points at once, as text, attribute value or in names. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['Comments, empty-element tags, and raw tabs and line ends in attribute values are not generated (known findings)']


def parse_events(src):
    from amara3.uxml.parser import parse
    return [sut.event_json(ev) for ev in parse(src) if ev is not None]


def coroutine_events(src):
    from amara3.uxml.parser import parser
    acc = []
    p = parser(sut.collector(acc))
    p.send((src, False))
    p.send(('', True))
    p.close()
    return acc


def docs(**kw):
    return st.tuples(gen.trees(**kw), gen.tapes(20)).map(lambda t: dict(tree=t[0], src=gen.render(*t)))


def large_docs():
    return st.tuples(gen.larger(gen.trees(max_tokens=6)), gen.tapes(8)).map(lambda t: dict(tree=t[0], src=gen.render(*t)))


def huge_docs():
    return st.tuples(gen.trees(max_tokens=4), gen.huge_ops(), gen.tapes(4)).map(lambda t: (gen.huge(*t[:2]), t[2])).map(lambda t: dict(tree=t[0], src=gen.render(*t)))


def check_doc(case, rec):
    tree, src = case['tree'], case['src']
    with oracle():
        expected = gen.events(tree)
        gen.describe(rec, tree)
        rec.nontrivial(gen.rich(tree))
        if '&#x' in src:
            rec.label('hex references')
        if '\r' in src:
            rec.label('CR line ends')
        if '="' in src and "='" in src:
            rec.label('both quotes')
        if len(src) > 2000:
            rec.label('longer than 2000')
    same('events of parse({!r})'.format(src[:500]), parse_events(src), expected)
    same('events with a handler for {!r}'.format(src[:500]), coroutine_events(src), expected)


BLOCK = 2048


def blocks():
    return [n for n in range(0, 0x110000, BLOCK)]


def check_block(case, rec):
    kind, start = case['kind'], case['start']
    cps = [chr(n) for n in range(start, min(start + BLOCK, 0x110000)) if not 0xd800 <= n < 0xe000]
    if kind == 'text':
        chars = ''.join(c for c in cps if gen.is_char(c) and c not in '<>&')
        src, expected = '<a>' + chars + '</a>', [['start', 'a', [], []]] + ([['text', chars]] if chars else []) + [['end', 'a', []]]
    elif kind == 'value':
        q = '"' if start % (2 * BLOCK) else "'"
        chars = ''.join(c for c in cps if gen.is_char(c) and c not in '<>&\t\n' + q)
        src, expected = '<a b=' + q + chars + q + '></a>', [['start', 'a', [['b', chars]], []], ['end', 'a', []]]
    elif kind == 'ref':
        chars = ''.join(c for c in cps if gen.is_char(c))
        src = '<a>' + ''.join('&#x{:x};'.format(ord(c)) for c in chars) + '</a>'
        expected = [['start', 'a', [], []]] + ([['text', chars]] if chars else []) + [['end', 'a', []]]
    else:
        # Both as start and, in names, as further characters
        starts = [c for c in cps if gen.is_name_start(c)]
        rest = 'z' + ''.join(c for c in cps if gen.is_name_char(c))
        src = '<{0}></{0}>'.format(rest)
        expected = [['start', rest, [], []], ['end', rest, []]]
        some = starts[::37] + starts[-1:]
        doc = '<r {}>'.format(' '.join('{}="{}"'.format(n, i) for i, n in enumerate(dict.fromkeys(some)))) + '</r>'
        same('names in ' + doc[:60], parse_events(doc),
             [['start', 'r', [[n, str(i)] for i, n in enumerate(dict.fromkeys(some))], []], ['end', 'r', []]])
        chars = rest[1:]
    rec.nontrivial(chars)
    rec.label(kind)
    same('events for the characters U+{:04X} to U+{:04X} as {}'.format(start, start + BLOCK - 1, kind), parse_events(src), expected)


def block_strategy():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(['text', 'value', 'name', 'ref']), start=st.sampled_from(blocks())))


BLOCK_EXAMPLES = [dict(kind=k, start=b) for b in blocks() for k in ('text', 'value', 'name', 'ref')]


def check_accept(case, rec):
    '''Known findings: documents given as they are'''
    rec.nontrivial(False)
    same('events of parse({!r})'.format(case['src']), parse_events(case['src']), case['events'])


SUBS = [
    Sub('documents', lambda: docs(), check_doc, 9000, 300000),
    Sub('attributes', lambda: docs(max_tokens=4, max_attrs=12, heavy=False), check_doc, 4000, 100000),
    Sub('large', lambda: large_docs(), check_doc, 800, 25000),
    Sub('huge', lambda: huge_docs(), check_doc, 400, 8000),
    Sub('charclass', block_strategy, check_block, 0, 0, examples=BLOCK_EXAMPLES),
    Sub('accept', lambda: st.nothing(), check_accept, 0, 0),
]
