'''XML 1.0 is reduced to MicroXML faithfully'''
from hypothesis import strategies as st

from vlib import gen, sut, mutate, xmlref
from vlib.harness import Sub, oracle, same, fail, short

RULE = ('XML documents rendered from random trees with random namespaces and prefixes, comments, processing instructions, doctype '
        'with internal entities, CDATA sections, decimal and hexadecimal references, empty-element tags and encodings; expected tree known by '
        'construction. Broken documents: edits of these, against expat on its own. Non-trivial: uses at least two of these features. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['expat is right about which documents are well-formed']

# Without spaces, which expat rejects with the separator used
URIS = ['urn:x', 'http://example.org/ns#', 'urn:new\nline', 'urn:y', 'u', 'urn:é', 'http://www.w3.org/1999/xhtml', 'a', 'urn:a/b?c=d&e', '\nurn:n\n']
PREFIXES = ['p', 'q', 'a', 'n-s', 'é', 'p1']
DATA = ['', ' ', 'x', ' c ', '<a>', '&amp;', '&x', 'a b="c"', '</a>', ' - ', '\n', 'x="y"?', ']]>', '>', 'é']


class Renderer:
    def __init__(self, tape):
        self.t = gen.Tape(tape)
        self.out = []
        self.entities = []
        self.used = set()

    def misc(self):
        t = self.t
        k = t.pick(range(16))
        if k == 7:
            d = t.pick(DATA).replace('--', '')
            if d.endswith('-'):
                d += ' '
            self.used.add('comment')
            return '<!--' + d + '-->'
        if k == 9:
            self.used.add('pi')
            return '<?' + t.pick(['p', 'php', 'x-y', 'xml-stylesheet']) + ' ' + t.pick(DATA).replace('?', '') + '?>'
        return ''

    def ref(self, c):
        return self.t.pick(['&#{};', '&#x{:x};', '&#x{:X};', '&#0{};']).format(ord(c))

    def entity(self, s):
        body = []
        for c in s:
            if c in '&<>':
                body.append({'&': '&#38;#38;', '<': '&#38;#60;', '>': '&#38;#62;'}[c])
            elif c in '%"\r\n\t':
                body.append('&#38;#{};'.format(ord(c)))
            else:
                body.append(c)
        name = 'e{}'.format(len(self.entities))
        self.entities.append((name, ''.join(body)))
        self.used.add('entity')
        return '&' + name + ';'

    def text(self, s):
        t = self.t
        out = []
        i = 0
        while i < len(s):
            k = t.pick(range(16))
            if k == 3 and len(s) - i > 1 and len(self.entities) < 4:
                n = t.pick([1, 2, 3, 5])
                out.append(self.entity(s[i:i + n]))
                i += n
                continue
            if k == 5:
                n = t.pick([1, 2, 3, 8])
                chunk = s[i:i + n]
                if '\r' not in chunk and ']]>' not in chunk and not chunk.endswith(']'):
                    out.append('<![CDATA[' + chunk + ']]>')
                    self.used.add('cdata')
                    i += n
                    continue
            if k == 6:
                m = self.misc()
                out.append(m)
            c = s[i]
            if c in '<&':
                out.append(gen.NAMED[c] if k < 10 else self.ref(c))
            elif c == '>':
                out.append('&gt;' if k < 10 or (out and out[-1].endswith(']')) else '>')
            elif c == '\r' or k == 15:
                out.append(self.ref(c))
            elif c in '"\'' and k > 11:
                out.append(gen.NAMED[c])
            elif c == '\n' and k > 12:
                out.append('\r\n')
            elif c == ']':
                out.append('&#93;' if out and out[-1].endswith(']') else ']')
            else:
                out.append(c)
            i += 1
        return ''.join(out)

    def value(self, s):
        t = self.t
        q = t.pick('"\'')
        out = [q]
        for c in s:
            k = t.pick(range(16))
            if k == 3 and len(self.entities) < 4 and c not in '\r\n\t':
                out.append(self.entity(c))
            elif c in '<&' or c == q:
                out.append(gen.NAMED[c] if k < 10 else self.ref(c))
            elif c in '\r\n\t' or k == 15:
                out.append(self.ref(c))
            elif c == ' ' and k > 12:
                out.append('\n' if k == 13 else '\t')   # Normalised to a space
            else:
                out.append(c)
        out.append(q)
        return ''.join(out)

    def start(self, e, scope):
        '''Append start tag. Gives the scope inside, and the name as written'''
        t = self.t
        scope = dict(scope)
        decls = []
        name = e[0]
        k = t.pick(range(10))
        if k == 1:
            uri = t.pick(URIS)
            decls.append(('xmlns', uri))
            scope[''] = uri
            self.used.add('default ns')
        elif k == 2:
            p, uri = t.pick(PREFIXES), t.pick(URIS)
            decls.append(('xmlns:' + p, uri))
            scope[p] = uri
            name = p + ':' + name
            self.used.add('prefix')
        elif k == 3 and '' in scope:
            decls.append(('xmlns', ''))
            del scope['']
        elif k in (4, 5):
            ps = sorted(p for p in scope if p)
            if ps:
                name = t.pick(ps) + ':' + name
                self.used.add('prefix')
        elif k == 6:
            p, uri = t.pick(PREFIXES), t.pick(URIS)
            decls.append(('xmlns:' + p, uri))
            scope[p] = uri
        attrs = []
        for a, v in e[1]:
            ps = sorted(p for p in scope if p) + ['xml']
            if t.pick(range(3)) == 2:
                p = t.pick(ps)
                attrs.append((p + ':' + a, v))
                self.used.add('prefixed attribute')
            else:
                attrs.append((a, v))
        tags = [(n, v, True) for n, v in decls]
        items = tags + [(n, v, False) for n, v in attrs]
        if t.pick(range(2)):
            items = items[len(tags):] + tags
        self.out.append('<' + name)
        for n, v, _ in items:
            self.out.append(t.pick(gen.WS1) + n + t.pick(gen.WS) + '=' + t.pick(gen.WS) + self.value(v))
        self.out.append(t.pick(gen.WS))
        if not e[2] and t.pick(range(3)) == 2:
            self.out.append('/>')
            self.used.add('empty tag')
            return None, name
        self.out.append('>')
        return scope, name

    def document(self, tree):
        stack = []

        def open_(e, scope):
            inner, written = self.start(e, scope)
            if inner is not None:
                stack.append((e, iter(e[2]), inner, written))
        open_(tree, {})
        while stack:
            e, it, scope, written = stack[-1]
            for c in it:
                self.out.append(self.misc())
                if isinstance(c, str):
                    self.out.append(self.text(c))
                else:
                    open_(c, scope)
                    break
            else:
                self.out.append('</' + written + self.t.pick(gen.WS) + '>')
                stack.pop()
        body = ''.join(self.out)
        t = self.t
        prolog = self.misc() + t.pick(['', '\n'])
        if self.entities or t.pick(range(6)) == 5:
            subset = ''.join('<!ENTITY {} "{}">'.format(n, v) for n, v in self.entities)
            prolog += '<!DOCTYPE ' + t.pick(['x', 'a', 'html']) + (' [' + subset + ']' if subset else t.pick(['', ' SYSTEM "u"', ' PUBLIC "-//X" "u"'])) + '>'
            prolog += self.misc()
            self.used.add('doctype')
        return prolog + body + t.pick(['', '\n', ' ']) + self.misc()


def render(tree, tape):
    r = Renderer(tape)
    doc = r.document(tree)
    return doc, sorted(r.used)


def with_encoding(doc, enc):
    '''Source to be parsed (str or bytes) for a document without XML declaration'''
    if enc == 'str':
        return doc
    if enc == 'str-decl':
        return '<?xml version="1.0"?>' + doc
    if enc == 'str-wrongdecl':
        return '<?xml version="1.0" encoding="UTF-8"?>' + doc
    if enc == 'utf-8':
        return doc.encode('utf-8')
    if enc == 'utf-8-bom':
        return b'\xef\xbb\xbf' + doc.encode('utf-8')
    if enc == 'utf-16':
        return doc.encode('utf-16')
    for name in ('iso-8859-1', 'us-ascii'):
        if enc == name:
            try:
                return ('<?xml version="1.0" encoding="{}" standalone="yes"?>'.format(name) + doc).encode(name)
            except UnicodeEncodeError:
                return ('<?xml version="1.0" encoding="utf-8"?>' + doc).encode('utf-8')
    raise AssertionError(enc)


ENCODINGS = ['str', 'str', 'str', 'str-decl', 'str-wrongdecl', 'utf-8', 'utf-8-bom', 'utf-16', 'iso-8859-1', 'us-ascii']


def amara_events(source):
    from amara3.uxml import xml as X
    acc, raw = [], []

    def handler():
        while True:
            ev = yield
            raw.append(ev)
            acc.append(sut.event_json(ev))
    X.parse(source, handler())
    same('events of {}, later'.format(short(repr(source))), [sut.event_json(ev) for ev in raw], acc)
    return sut.merge_text(acc)


def plain_order(evs):
    return [['start', ev[1], sorted(ev[2]), ev[3]] if ev[0] == 'start' else ev for ev in evs]


def check_doc(case, rec):
    from amara3.uxml import xml as X
    tree = case['tree']
    with oracle():
        doc, used = render(tree, case['tape'])
        source = with_encoding(doc, case['enc'])
        expected = plain_order(gen.events(tree))
        try:
            ref = plain_order(xmlref.events(source))
        except Exception as e:
            raise AssertionError(source) from e
        assert ref == expected, (source, ref, expected)
        rec.label('encoding ' + case['enc'], *used)
        rec.nontrivial(len(used) > 1)
        gen.describe(rec, tree)
    same('events of ' + short(repr(source)), plain_order(amara_events(source)), expected)
    root = X.treebuilder().parse(source)
    same('tree of ' + short(repr(source)), plain_order(gen.events(gen.normal(sut.dump(root)))), expected)
    if root.xml_parent is not None:
        fail('the document element of {} has a parent', short(repr(source)))


def check_any(case, rec):
    '''Also malformed: as expat says'''
    from amara3.uxml import xml as X
    src = case['src']
    with oracle():
        try:
            expected = plain_order(xmlref.events(src))
        except Exception:
            expected = None
        rec.nontrivial(expected is None)
        rec.label('accepted' if expected is not None else 'rejected')
    for what, f in (('xml.parse', amara_events),
                    ('treebuilder', lambda s: gen.events(gen.normal(sut.dump(X.treebuilder().parse(s)))))):
        try:
            got = plain_order(f(src))
        except Exception as e:
            if expected is not None:
                fail('{} rejects {}: {!r}', what, short(repr(src)), e)
            continue
        if expected is None:
            fail('{} accepts {}, giving {}', what, short(repr(src)), short(got))
        same('{} of {}'.format(what, short(repr(src))), got, expected)


def check_history(case, rec):
    from amara3.uxml import xml as X
    with oracle():
        expected = []
        for src in case['docs']:
            try:
                expected.append(plain_order(xmlref.events(src)))
            except Exception:
                expected.append(None)
        rec.nontrivial(len(expected) > 1 and any(e is not None for e in expected))
        for a, b in zip(expected, expected[1:]):
            rec.label('{} then {}'.format('good' if a else 'bad', 'good' if b else 'bad'))
    b = X.treebuilder()
    kept = []
    errors = []     # With all that they refer to
    for i, (src, exp) in enumerate(zip(case['docs'], expected)):
        try:
            root = b.parse(src)
        except Exception as e:
            errors.append(e)
            if exp is not None:
                fail('document {} of {!r}: {!r}', i, case['docs'], e)
            continue
        if exp is None:
            fail('document {} of {!r} is accepted', i, case['docs'])
        same('document {} of {!r}'.format(i, case['docs']), plain_order(gen.events(gen.normal(sut.dump(root)))), exp)
        if root.xml_parent is not None:
            fail('document {} of {!r} has a parent', i, case['docs'])
        kept.append((i, root, exp))
    for i, root, exp in kept:
        same('document {} of {!r}, at the end'.format(i, case['docs']), plain_order(gen.events(gen.normal(sut.dump(root)))), exp)


XML_CHUNKS = ['\r', '\x7f', '\x85', ']]>', ']]', '%', '&#10;', '%x;', '\u2028', '\t']


def xml_texts(n=1):
    chunk = gen.pick(st.sampled_from(gen.CHUNKS), st.sampled_from(gen.CHUNKS[:16]), st.sampled_from(XML_CHUNKS), gen.range_chars(gen.CHARS))
    return st.lists(chunk, min_size=n, max_size=4).map(''.join)


def xml_trees(**kw):
    name = gen.expat_names()
    return gen.trees(name=name, text=xml_texts(1), value=xml_texts(0), **kw)


def docs():
    return st.fixed_dictionaries(dict(tree=xml_trees(max_tokens=10), tape=gen.tapes(30), enc=st.sampled_from(ENCODINGS)))


def sources(small=True):
    return st.tuples(xml_trees(max_tokens=5, heavy=False, max_attrs=2), gen.tapes(20)).map(lambda t: render(*t)[0])


EDIT_TOKENS = ['<p:a>', 'xmlns:p="u"', ' xmlns=""', '<![CDATA[', ']]>', '&e0;', '&nope;', '<?xml version="1.0"?>', '<!DOCTYPE a>', '--', '<!--',
               'p:', ':', 'xml:a="1"', '&#0;', '&#xD800;', '<x/>']


def broken():
    edit = gen.pick(mutate.edits(),
                     st.lists(st.tuples(st.sampled_from(['ins', 'rep', 'markup']), st.integers(0, 4000), st.sampled_from(EDIT_TOKENS)), min_size=1, max_size=2))
    return st.tuples(sources(), edit).map(lambda t: mutate.apply(*t)).map(lambda s: ''.join(c for c in s if not '\ud800' <= c <= '\udfff'))


def anything():
    cut = st.tuples(sources(), st.integers(0, 3000)).map(lambda t: t[0][:t[1] % len(t[0])])
    return st.fixed_dictionaries(dict(src=gen.pick(broken(), broken(), cut, mutate.soup().map(lambda s: s.replace('\ud800', '')))))


def histories():
    cut = st.tuples(sources(), st.integers(0, 3000)).map(lambda t: t[0][:t[1] % len(t[0])])
    return st.fixed_dictionaries(dict(docs=st.lists(gen.pick(sources(), sources(), broken(), cut), min_size=1, max_size=4)))


SUBS = [
    Sub('documents', docs, check_doc, 7000, 200000),
    Sub('large', gen.enlarged_cases(docs), check_doc, 600, 20000),
    Sub('huge', gen.huge_cases(docs), check_doc, 250, 6000),
    Sub('any-text', anything, check_any, 5000, 150000),
    Sub('histories', histories, check_history, 3000, 80000, examples=[dict(docs=['<a><b>', '<c><d>x</d></c>', '<a></b>', '<e>y</e>', '<a/><b/>', '<f/>'])]),
]
