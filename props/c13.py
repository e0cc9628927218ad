'''Pretty-printing only ever adds or changes white space'''
import io

from hypothesis import strategies as st

from vlib import gen, sut, ref_mx, xmlref
from vlib.harness import Sub, oracle, same, fail, short
from props import c12

RULE = ('Random trees (mixed content, adjacent and empty text nodes, white space), pretty-printed by make_pretty (once or twice, from random '
        'depths, whole trees and inner elements), xml_encode and the raw writer with random white space indents. The outcome of make_pretty is '
        'compared node by node; the text of the others is read by a reference reader and compared up to white space next to tags. '
        'Non-trivial: the tree has child elements and text. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['The indent is XML white space', 'Text made of other Unicode spaces only may or may not count as white space']

WS = ' \t\r\n'
INDENTS = ['  ', '\t', ' ', '    ', '', ' \t', '\n', '\t\t']


def check_pretty(case, rec):
    from amara3.uxml import tree as T, treeutil
    tree, indent, depth = case['tree'], case['indent'], case['depth']
    if case['how'] == 'parse':
        top = T.parse(gen.render(tree, [1, 2, 3]))
    else:
        top = sut.make(tree)
    target = top
    inner = [e for e in treeutil.descendants(top)]
    if case['inner'] and inner:
        target = inner[case['inner'] % len(inner)]
        rec.label('inner element')
    outside = target.xml_parent
    with oracle():
        original = sut.dump(target)
        gen.describe(rec, original)
        rec.nontrivial(gen.count(original) > 1 and any(isinstance(c, str) for e, _ in gen.walk(original) for c in e[2]))
        rec.label('by ' + case['how'], 'indent {!r}'.format(indent))
    before_top = sut.dump(top)

    def snapshot(e):
        return [(e, e.xml_name, list(e.xml_attributes.items()), list(e.xml_children))] + \
            [(c, c.xml_name, list(c.xml_attributes.items()), list(c.xml_children)) for c in treeutil.descendants(e)]

    for turn in range(case['times']):
        snap = snapshot(target)
        levels = {id(target): depth}
        for e, _, _, children in snap:
            for c in children:
                if isinstance(c, T.element):
                    levels[id(c)] = levels[id(e)] + 1
        kw = {}
        if indent != '  ' or case['inner'] % 2:
            kw['indent'] = indent
        if depth:
            kw['depth'] = depth
        result = treeutil.make_pretty(target, **kw)
        if result is not target:
            fail('make_pretty gives {!r} instead of the element', result)
        now = snapshot(target)
        same('elements', [(id(e), n, a) for e, n, a, _ in now], [(id(e), n, a) for e, n, a, _ in snap])
        sut.dump(top)     # Checks parents
        for (e, _, _, children), (_, _, _, new) in zip(snap, now):
            def kept(c):
                return isinstance(c, T.element) or str.__str__(c).strip()
            def space(c):
                return not isinstance(c, T.element) and not str.__str__(c).strip(WS)
            ids = {id(c) for c in children}
            # Nodes which stay
            same('children of {} apart from white space'.format(case['tree'][0] if e is top else e.xml_name),
                 [id(c) for c in new if kept(c)], [id(c) for c in children if kept(c)])
            for c in new:
                if not kept(c) and not space(c) and id(c) not in ids:
                    fail('make_pretty added {!r}', c)
            if all(isinstance(c, T.element) or space(c) for c in children):
                expected = '\n' + indent * (levels[id(e)] + 1)
                run = ''
                for c in new:
                    if isinstance(c, T.element):
                        if not run.endswith(expected):
                            fail('white space {!r} before child {!r} at level {} with indent {!r}, in {}',
                                 run, c.xml_name, levels[id(e)] + 1, indent, short(target.xml_encode()))
                        run = ''
                        rec.label('indented child')
                    else:
                        run += str.__str__(c)
        if target is not top:
            if target.xml_parent is not outside:
                fail('the parent of the element changed')
            with oracle():
                got = sut.dump(top)

            def cut(t, e):
                if e is target:
                    return ['target', [], []]
                return [t[0], t[1], [c if isinstance(c, str) else cut(c, n) for c, n in zip(t[2], e.xml_children)]]
            if turn == 0:
                same('tree around the element', cut(got, top), cut(before_top, top))


def check_text(case, rec):
    from amara3.uxml import tree as T, writer
    tree, indent = case['tree'], case['indent']
    with oracle():
        expected = xmlref.space_runs(tree)
        gen.describe(rec, tree)
        rec.nontrivial(gen.count(tree) > 1 and any(isinstance(c, str) for e, _ in gen.walk(tree) for c in e[2]))
        rec.label('by ' + case['how'], 'indent {!r}'.format(indent))
    elem = sut.make(tree)
    before = sut.dump(elem)
    empty = False
    if case['how'] == 'encode':
        text = elem.xml_encode(indent, case['depth']) if case['depth'] else elem.xml_encode(indent=indent)
    else:
        fp = io.StringIO()
        w = writer.raw(fp, indent=indent, depth=case['depth']) if case['depth'] else writer.raw(fp, indent=indent)
        if case['how'] == 'write':
            writer.write(elem, w)
        else:
            empty = c12.write_calls(w, tree, case['tape'])
        text = fp.getvalue()
    same('tree afterwards', sut.dump(elem), before)
    verdict, got = ref_mx.judge(text)
    if verdict == 'reject' or (verdict == 'either' and not empty):
        fail('not MicroXML ({}): {}', got, short(text))
    with oracle():
        read = xmlref.space_runs(xmlref.tree_of(got))
    same('elements, attributes and text of ' + short(text), read, expected)
    if not empty:
        same('tree parsed from ' + short(text), xmlref.space_runs(sut.dump(T.parse(text))), expected)


def words():
    return gen.pick(gen.texts(1), st.sampled_from([' ', '\n', '\n  ', '\t', 'x', ' x', 'x ', ' x y\n', '\n\n', '\u200b', '\ufeff', '\u2060', ' \u200b ', '\xa0', '\u3000', '\xad', '0', '\u180e', '\x1f' * 0 + '\u2800']))


def trees(merge):
    return gen.trees(min_tokens=3, text=words() if merge else gen.pick(words(), st.just('')), merge=merge, empty_text=not merge)


def pretty_cases():
    def mk(how):
        return st.fixed_dictionaries(dict(
            tree=trees(how == 'parse'), how=st.just(how), indent=st.sampled_from(INDENTS), depth=st.sampled_from([0, 0, 0, 1, 3]),
            inner=st.sampled_from([0, 0, 1, 2, 3]), times=st.integers(1, 2)))
    return gen.pick(mk('parse'), mk('api'))


def text_cases():
    return st.fixed_dictionaries(dict(
        tree=trees(False), how=st.sampled_from(['encode', 'write', 'calls']), indent=st.sampled_from(INDENTS),
        depth=st.sampled_from([0, 0, 0, 1, 3]), tape=gen.tapes()))


def large_pretty():
    return st.tuples(pretty_cases(), gen.enlargements()).map(lambda t: dict(t[0], tree=gen.enlarge(t[0]['tree'], t[1], t[0]['how'] == 'parse')))


def huge_pretty():
    return st.tuples(pretty_cases(), gen.huge_ops()).map(lambda t: dict(t[0], tree=gen.huge(t[0]['tree'], t[1], t[0]['how'] == 'parse')))


SUBS = [
    Sub('make_pretty', pretty_cases, check_pretty, 6000, 150000),
    Sub('text', text_cases, check_text, 8000, 150000),
    Sub('make_pretty-large', large_pretty, check_pretty, 400, 15000),
    Sub('text-large', gen.enlarged_cases(text_cases, False), check_text, 500, 15000),
    Sub('make_pretty-huge', huge_pretty, check_pretty, 150, 5000),
    Sub('text-huge', gen.huge_cases(text_cases, False), check_text, 150, 5000),
]
