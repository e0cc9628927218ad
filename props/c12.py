'''Writers produce well-formed markup that reads back as what was written'''
import io
import xml.parsers.expat

from hypothesis import strategies as st

from vlib import gen, sut, ref_mx, xmlref
from vlib.harness import Sub, oracle, same, fail, short

RULE = ('Random trees, written by sequences of calls on the raw writer (attributes in several forms, text in several pieces, empty elements '
        'by start and end or as empty, with or without an own handler for the tokens) or by write(), then read by a reference reader, by expat '
        'and by the parser. For the namespacer also random prefixes, namespaces and mappings of names, checked with expat in namespace mode and '
        'with the XML tree builder. Non-trivial: contains attributes or characters that need escaping (raw), or a mapped name (namespacer). huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['expat is right about XML 1.0 and namespaces', 'Namespace names have no spaces, as expat cannot handle these with " " as separator',
               'A namespacer writes one document']


def write_calls(w, tree, tape, text_of=None, log=None):
    '''Write the tree with the calls the tape chooses. Tells whether an empty tag was used'''
    t = gen.Tape(tape)
    used = False
    stack = [None]

    def start(e, empty):
        attrs = dict(map(tuple, e[1]))
        how = t.pick(range(3))
        if not attrs and how == 0:
            args, kw = (), {}
        elif how == 1:
            args, kw = (attrs,), {}
        else:
            args, kw = (), dict(attribs=attrs)
        if empty:
            kw['empty'] = True
        w.start_element(e[0], *args, **kw)
        if attrs != dict(map(tuple, e[1])):
            fail('attributes changed by writing them: {!r}', attrs)

    def text(s):
        while s:
            n = t.pick([len(s), len(s), 1, 2, 5])
            w.text(s[:n])
            s = s[n:]

    def can_be_empty(e):
        return not e[2] and t.pick([True, False, True])

    if can_be_empty(tree):
        start(tree, True)
        return True
    start(tree, False)
    stack = [(tree, iter(tree[2]))]
    while stack:
        e, it = stack[-1]
        for c in it:
            if isinstance(c, str):
                text(c)
            elif can_be_empty(c):
                used = True
                start(c, True)
            else:
                start(c, False)
                stack.append((c, iter(c[2])))
                break
        else:
            w.end_element(e[0])
            stack.pop()
    return used


def describe(tree, rec):
    data = [c for e, _ in gen.walk(tree) for c in e[2] if isinstance(c, str)] + [v for e, _ in gen.walk(tree) for _, v in e[1]]
    special = {c for s in data for c in s if c in '<>&"\'\t\n'}
    rec.label(*('with ' + repr(c) for c in special))
    gen.describe(rec, tree)
    return bool(special or any(e[1] for e, _ in gen.walk(tree)))


def handler(kind):
    '''A separate handler for the tokens'''
    from amara3.uxml import writer
    if kind == 'raw':
        return writer.raw

    class Handler(writer.raw):
        seen = []

        def __init__(self, fp):
            writer.raw.__init__(self, fp)
            self.seen = Handler.seen = []

        def write(self, ctx, text):
            if not isinstance(ctx, writer.context):
                fail('not a context: {!r}', ctx)
            self.seen.append((ctx, text))
            writer.raw.write(self, ctx, text)
    return Handler


def check_raw(case, rec):
    from amara3.uxml import writer, tree as T
    tree = case['tree']
    with oracle():
        expected = gen.normal(tree)
        evs = gen.events(expected)
        rec.nontrivial(describe(tree, rec))
    fp = io.StringIO()
    if case['handler']:
        handling = handler(case['handler'])
        w = writer.raw(fp, whandler=handling)
    else:
        w = writer.raw(fp) if len(case['tape']) % 2 else writer.raw(fp=fp)
    if case['how'] == 'write':
        elem = sut.make(tree)
        before = sut.dump(elem)
        writer.write(elem, w)
        same('tree after write()', sut.dump(elem), before)
        empty = False
    else:
        empty = write_calls(w, tree, case['tape'])
    rec.label(case['how'], 'empty tags' if empty else 'no empty tags', 'handler ' + case['handler'] if case['handler'] else 'no handler')
    text = fp.getvalue()
    if case['handler'] == 'own':
        seen = {k: [t for c, t in handling.seen if c == k] for k in (writer.context.element_name, writer.context.attribute_name, writer.context.text)}
        if not empty:
            same('element names given to the handler', seen[writer.context.element_name], [e[1] for e in evs if e[0] in ('start', 'end')])
        same('attribute names given to the handler', seen[writer.context.attribute_name], [k for e in evs if e[0] == 'start' for k, _ in e[2]])
        same('text given to the handler', ''.join(map(str, seen[writer.context.text])), ''.join(e[1] for e in evs if e[0] == 'text'))
    verdict, got = ref_mx.judge(text)
    if verdict == 'reject' or (verdict == 'either' and not empty):
        fail('not MicroXML ({}): {}', got, short(text))
    same('reference reading of ' + short(text), got, evs)
    if not empty:
        same('tree parsed from ' + short(text), sut.dump(T.parse(text)), expected)
    if case['expat']:
        try:
            got = xmlref.events(text, namespaces=False)
        except xml.parsers.expat.ExpatError as ex:
            fail('output is not XML ({}): {}', ex, short(text))
        same('expat reading of ' + short(text), got, evs)


def raw_cases(expat):
    def f():
        name = gen.expat_names() if expat else gen.names()
        tree = gen.trees(name=name, text=gen.texts(0), merge=False, empty_text=True)
        return st.fixed_dictionaries(dict(
            tree=tree, tape=gen.tapes(), expat=st.just(expat), how=st.sampled_from(['calls', 'calls', 'write']),
            handler=st.sampled_from(['', '', '', 'raw', 'own'])))
    return f


# Namespaces

URIS = ['urn:x', 'http://example.org/ns', 'http://example.org/?a=1&b=2', 'urn:<x>', 'urn:"q"', "urn:'q'", 'urn:é', 'urn:x#', 'urn:b&amp;', 'X']
PREFIXES = ['', '', 'p', 'q', 'a', 'b', 'é', 'p-1', 'or']


def read_ns(text):
    '''Events with (namespace, local name, prefix) for names, and declarations: [depth, prefix, uri]'''
    out, decls = [], []
    p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
    p.namespace_prefixes = True
    p.ordered_attributes = True
    depth = [0]

    def triple(name):
        parts = name.split(' ')
        if len(parts) == 1:
            return [None, parts[0], '']
        return [parts[0], parts[1], parts[2] if len(parts) > 2 else '']

    def start(name, attrs):
        depth[0] += 1
        out.append(['start', triple(name), [[triple(attrs[i]), attrs[i + 1]] for i in range(0, len(attrs), 2)]])

    def end(name):
        depth[0] -= 1
        out.append(['end', triple(name)])

    def chars(s):
        if out[-1][0] == 'text':
            out[-1][1] += s
        else:
            out.append(['text', s])
    p.StartNamespaceDeclHandler = lambda prefix, uri: decls.append([depth[0], prefix or '', uri])
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(text, True)
    return out, decls


def check_ns(case, rec):
    from amara3.uxml import writer, xml as X
    tree, prefixes = case['tree'], dict(map(tuple, case['prefixes']))
    with oracle():
        declared = list(prefixes)
        mapping = {}
        for n, i in case['names']:
            if declared:
                p = declared[i % len(declared)]
                mapping[n] = (prefixes[p], p)
        for n, i in case['anames']:
            if declared:
                p = declared[i % len(declared)]
                if p:   # The default namespace does not apply to attributes
                    mapping['@' + n] = (prefixes[p], p)
        default = prefixes.get('')

        def qname(n):
            p = mapping.get(n, ('', ''))[1]
            return [prefixes[p], n, p] if p else [default, n, '']

        def aqname(n):
            p = mapping.get('@' + n, ('', ''))[1]
            return [prefixes[p], n, p] if p else [None, n, '']
        expected = []
        for ev in gen.events(gen.normal(tree)):
            if ev[0] == 'start':
                expected.append(['start', qname(ev[1]), [[aqname(k), v] for k, v in ev[2]]])
            elif ev[0] == 'end':
                expected.append(['end', qname(ev[1])])
            else:
                expected.append(['text', ev[1]])
        names = {e[0] for e, _ in gen.walk(tree)}
        anames = {'@' + k for e, _ in gen.walk(tree) for k, _ in e[1]}
        rec.nontrivial(any(n in mapping for n in names | anames))
        rec.label('default namespace' if '' in prefixes else 'no default namespace', '{} prefixes'.format(len(prefixes)),
                  *(['attribute prefixes'] if any(n in mapping for n in anames) else []),
                  *(['names and attributes of one name'] if {'@' + n for n in names} & anames else []))
        describe(tree, rec)
    fp = io.StringIO()
    kw = {}
    if prefixes or case['tape'][:1] == [1]:
        kw['prefixes'] = prefixes
    if mapping or case['tape'][:1] == [2]:
        kw['mapping'] = mapping
    given = (dict(prefixes), dict(mapping))
    w = writer.namespacer(fp, **kw)
    if case['how'] == 'write':
        writer.write(sut.make(tree), w)
    else:
        rec.label('empty tags' if write_calls(w, tree, case['tape']) else 'no empty tags')
    same('prefixes and mapping afterwards', (prefixes, mapping), given)
    text = fp.getvalue()
    try:
        got, decls = read_ns(text)
    except xml.parsers.expat.ExpatError as ex:
        fail('output is not namespace-well-formed XML ({}): {}', ex, short(text))
    same('declarations in ' + short(text), decls, [[0, p, u] for p, u in prefixes.items()])
    same('elements, attributes and text of ' + short(text), got, expected)
    with oracle():
        plain = gen.normal(tree)
    same('tree from ' + short(text), gen.normal(sut.dump(X.treebuilder().parse(text))), plain)


def ns_cases():
    pool = gen.pick(st.sampled_from(['a', 'b', 'c']), gen.expat_names())
    tree = gen.trees(name=pool, text=gen.texts(0), merge=False, empty_text=True)
    prefixes = st.lists(st.tuples(st.sampled_from(PREFIXES), st.sampled_from(URIS)), max_size=4, unique_by=lambda t: t[0])
    options = st.tuples(prefixes, st.lists(st.integers(0, 9), min_size=4, max_size=4), st.lists(st.integers(0, 9), min_size=4, max_size=4),
                        gen.tapes(), st.sampled_from(['calls', 'write']))

    def mk(t):
        tr, (prefixes, ns, ans, tape, how) = t
        names = sorted({e[0] for e, _ in gen.walk(tr)})
        anames = sorted({k for e, _ in gen.walk(tr) for k, _ in e[1]})
        # Numbers from 7 up: not mapped
        return dict(tree=tr, prefixes=[list(p) for p in prefixes], tape=tape, how=how,
                    names=[[n, ns[i % 4]] for i, n in enumerate(names) if ns[i % 4] < 7],
                    anames=[[n, ans[i % 4]] for i, n in enumerate(anames) if ans[i % 4] < 7])
    return st.tuples(tree, options).map(mk)


SUBS = [
    Sub('raw-any-names', raw_cases(False), check_raw, 4000, 120000),
    Sub('raw-expat-names', raw_cases(True), check_raw, 4000, 120000),
    Sub('raw-large', gen.enlarged_cases(raw_cases(True), False), check_raw, 600, 20000),
    Sub('namespacer-large', gen.enlarged_cases(ns_cases, False), check_ns, 500, 15000),
    Sub('raw-huge', gen.huge_cases(raw_cases(True), False), check_raw, 200, 5000),
    Sub('namespacer-huge', gen.huge_cases(ns_cases, False), check_ns, 200, 5000),
    Sub('namespacer', ns_cases, check_ns, 6000, 150000, examples=[
        dict(tree=['a', [['a', '1']], [['a', [], []]]], prefixes=[['p', 'urn:x'], ['', 'urn:"q"']], tape=[], how='calls', names=[['a', 0]], anames=[['a', 1]]),
        dict(tree=['a', [], []], prefixes=[['p', 'urn:x']], tape=[], how='calls', names=[['a', 0]], anames=[])]),
]
