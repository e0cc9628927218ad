'''Lax XML parsing of well-formed XML equals strict parsing'''
import os

from hypothesis import strategies as st

from vlib import gen, sut, env
from vlib.harness import Sub, oracle, same, fail, short

FUEL_PREFIXES = (os.path.join(env.SITE, 'html5lib') + os.sep,)
RULE = ('Random trees with lower-case names unknown to HTML, rendered as MicroXML or XML with comments, processing instructions and document type; the lax '
        'parse is compared with the tree it was made from and with the strict parsers; also without some of the end tags at the end. '
        'Non-trivial: more than one element, and text or attributes. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['No empty-element tags, CDATA sections, namespace prefixes, C1 controls (HTML gives these another meaning)']

HTML_NAMES = set('''a abbr acronym address applet area article aside audio b base basefont bdi bdo bgsound big blink blockquote body br button canvas
caption center cite code col colgroup command data datalist dd del details dfn dialog dir div dl dt em embed event-source fieldset figcaption figure font
footer form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup hr html i iframe image img input ins isindex kbd keygen label legend li link listing
main map mark marquee math menu menuitem meta meter nav nobr noembed noframes noscript object ol optgroup option output p param picture plaintext pre
progress q rb rbc rp rt rtc ruby s samp script section select slot small source span strike strong style sub summary sup svg table tbody td template
textarea tfoot th thead time title tr track tt u ul var video wbr xmp mi mo mn ms mtext mglyph malignmark annotation-xml foreignobject desc spacer'''.split())
POOL = ['c', 'd', 'x', 'y', 'spam', 'eggs', 'node', 'text', 'x-1', 'x.y', 'or', 'spa', 'bb', 'headx', 'tables', 'names', 'aé', 'xЖ', 'bodyb', 'id', 'lt', 'hx', 'x_y']
WORDS = [w for w in gen.WORDS if w not in HTML_NAMES and w == w.lower()]


def names():
    built = st.tuples(st.sampled_from('abcdefghijklmnopqrstuvwxyz'), st.lists(st.sampled_from('abcdefghijklmnopqrstuvwxyz0123456789-._éЖ日'), max_size=5)) \
        .map(lambda t: t[0] + ''.join(t[1])).filter(lambda n: n not in HTML_NAMES and not n.startswith('xml'))
    return gen.pick(st.sampled_from(POOL), st.sampled_from(POOL), built, st.sampled_from(WORDS))


EXTRAS = ['<!--c-->', '<!-- <x> & -->', '<?p x?>', '<?php <b ?>'[:8] + '?>', '<!---->']


def decorate(doc, tape):
    '''Put comments and PIs between tags'''
    t = gen.Tape(tape)
    out = []
    for i, piece in enumerate(doc.split('<')):
        if i:
            if t.pick(range(5)) == 4:
                out.append(t.pick(EXTRAS))
            out.append('<')
        out.append(piece)
    head = t.pick(['', '', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n'])
    if t.pick(range(4)) == 3:
        head += '<!DOCTYPE ' + t.pick(['x', 'spam', 'html']) + t.pick(['', ' SYSTEM "u"', ' PUBLIC "-//X" "u"']) + '>'
    return head + ''.join(out).lstrip() + t.pick(['', '\n', '<!--end-->'])


def check(case, rec):
    from amara3.uxml import html5, tree as T, xml as X
    tree = case['tree']
    with oracle():
        tree = gen.normal(tree)
        doc = gen.render(tree, case['tape']).replace('\r\n', '\n').replace('\r', '\n')
        micro = True
        if case['extras']:
            doc = decorate(doc, case['extras'])
            micro = False
        rec.label('with extras' if case['extras'] else 'plain')
        rec.nontrivial(gen.rich(tree))
        gen.describe(rec, tree)
    if case['drop']:
        with oracle():
            full = doc.rstrip()
            n = case['drop']
            dropped = 0
            while dropped < n and not full.endswith('-->') and not full.endswith('?>'):
                i = full.rfind('<')
                if i <= 0 or not full.startswith('</', i) or full.find('>', i) != len(full) - 1:
                    break
                full = full[:i]
                dropped += 1
            doc = full if dropped else doc
            rec.label('dropped {} end tags'.format(min(dropped, 3)))
            # White space before the dropped tags stays
            strict = dropped == 0
    else:
        strict = True
    source = doc
    if case['bytes']:
        source = b'\xef\xbb\xbf' + doc.encode('utf-8')
    top = html5.parse_lax_xml(source)
    got = gen.normal(sut.dump(top))
    expected = tree
    same('lax tree of ' + short(repr(source)), order(got), order(expected))
    if top.xml_parent is not None:
        fail('the top element of {} has a parent', short(repr(source)))
    same('value of ' + short(repr(source)), top.xml_value, gen.value(expected))
    if strict:
        if micro:
            same('lax and strict tree of ' + short(repr(doc)), order(got), order(gen.normal(sut.dump(T.parse(doc)))))
        if case['xml']:
            same('lax and XML tree of ' + short(repr(doc)), order(got), order(gen.normal(sut.dump(X.treebuilder().parse(doc)))))


def order(t):
    for e, _ in gen.walk(t):
        e[1] = sorted(e[1])
    return t


BAD = set(map(chr, range(0x80, 0xa0))) | {'\x7f'}


def texts(n):
    chunk = gen.pick(st.sampled_from(gen.CHUNKS), st.sampled_from(gen.CHUNKS[:16]), gen.range_chars(gen.CHARS).filter(lambda c: c not in BAD))
    return st.lists(chunk, min_size=n, max_size=4).map(''.join)


def cases():
    tree = gen.trees(name=names(), text=texts(1), value=texts(0))
    return st.fixed_dictionaries(dict(
        tree=tree, tape=gen.tapes(), extras=gen.pick(st.just([]), gen.tapes(20)),
        drop=st.sampled_from([0, 0, 1, 1, 2, 3, 100]), bytes=st.sampled_from([False, False, False, True]), xml=st.booleans()))


SUBS = [
    Sub('documents', cases, check, 9000, 200000),
    Sub('large', gen.enlarged_cases(cases), check, 500, 15000),
    Sub('huge', gen.huge_cases(cases, many=1100), check, 120, 3000),
]
