'''Serialising a tree and parsing it back gives the same tree'''
import io

from hypothesis import strategies as st

from vlib import gen, sut, ref_mx, xmlref
from vlib.harness import Sub, oracle, same, fail, short

RULE = ('Random trees (names and characters from all legal ones; adjacent and empty text nodes) built by the API, by parsing MicroXML or '
        'XML, or by API calls in odd order; their serialisation is read by the MicroXML parser, by a reference MicroXML reader, and by expat '
        '(for names in the range expat knows). Non-trivial: contains a character that needs escaping. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['expat is right about XML 1.0']


def build(tree, how):
    if how == 'api':
        return sut.make(tree)
    if how == 'parse':
        from amara3.uxml import tree as T
        return T.parse(gen.render(tree, [3, 1, 4, 1, 5, 9, 2, 6, 12, 15, 11]))
    if how == 'xml':
        from amara3.uxml import xml as X
        return X.treebuilder().parse(xmlref.encode(tree))
    # Children inserted back to front, attributes set later
    from amara3.uxml.tree import element

    def make(t):
        e = element(t[0])
        for c in reversed(t[2]):
            e.xml_insert(c if isinstance(c, str) else make(c), 0)
        for k, v in t[1]:
            e.xml_attributes[k] = v
        return e
    return make(tree)


def check(case, rec):
    from amara3.uxml import tree as T
    tree, how = case['tree'], case['how']
    with oracle():
        expected = gen.normal(tree)
        evs = gen.events(expected)
        data = [c for e, _ in gen.walk(tree) for c in e[2] if isinstance(c, str)] + [v for e, _ in gen.walk(tree) for _, v in e[1]]
        special = {c for s in data for c in s if c in '<>&"\'\t\n'}
        rec.label('by ' + how, *('with ' + repr(c) for c in special))
        rec.nontrivial(special)
        gen.describe(rec, tree)
    e = build(tree, how)
    before = sut.dump(e)
    text = e.xml_encode()
    if type(text) is not str:
        fail('xml_encode gives {!r}', type(text))
    fp = io.StringIO()
    e.xml_write(fp)
    same('text written by xml_write', fp.getvalue(), text)
    same('tree after serialising', sut.dump(e), before)
    verdict, got = ref_mx.judge(text)
    if verdict == 'reject':
        fail('serialisation is not MicroXML ({}): {}', got, short(text))
    same('reference reading of ' + short(text), got, evs)
    again = T.parse(text)
    same('tree parsed from ' + short(text), sut.dump(again), expected)
    same('serialisation of the parsed tree', again.xml_encode(), text)
    if case['expat']:
        try:
            got = xmlref.events(text, namespaces=False)
        except Exception as ex:
            fail('serialisation is not XML ({}): {}', ex, short(text))
        same('expat reading of ' + short(text), got, evs)
    # Inner elements too
    for c in e.xml_children:
        if isinstance(c, T.element):
            same('serialisation of a child', sut.dump(T.parse(c.xml_encode())), gen.normal(sut.dump(c)))
            break


def cases(expat):
    def f():
        name = gen.expat_names() if expat else gen.names()
        plain = gen.trees(name=name, text=gen.texts(0), merge=False, empty_text=True)
        hows = st.sampled_from(['api', 'parse', 'xml', 'reverse'] if expat else ['api', 'parse', 'reverse'])
        return st.fixed_dictionaries(dict(tree=plain, how=hows, expat=st.just(expat)))
    return f


SUBS = [
    Sub('any-names', cases(False), check, 5000, 150000),
    Sub('expat-names', cases(True), check, 5000, 150000),
    Sub('large', gen.enlarged_cases(cases(True), False), check, 800, 25000),
    Sub('huge', gen.huge_cases(cases(True), False), check, 250, 6000),
]
