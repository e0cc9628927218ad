'''HTML is parsed into the tree the HTML5 algorithm prescribes'''
import os

from hypothesis import strategies as st

from vlib import gen, sut, htmlref, edits, env
from vlib.harness import Sub, oracle, same, fail, short

FUEL_PREFIXES = (os.path.join(env.SITE, 'html5lib') + os.sep,)
RULE = ('Tag soup of HTML, SVG and MathML tags, attributes, texts, references, comments, doctypes and broken markup, and tidy pages; the tree is compared '
        'with that of html5lib with its own element tree (local names, comments ignored), then serialised, queried and edited, with a model of '
        'lists. Non-trivial: more than two tags, and accepted by html5lib itself. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['html5lib is right about the HTML5 algorithm (texts on which it fails itself are skipped)']


def reference(src, rec):
    with oracle():
        try:
            return htmlref.tree(src)
        except htmlref.Unusable:
            rec.label('html5lib fails itself')
            rec.nontrivial(False)
            return None


def check_soup(case, rec):
    from amara3.uxml import html5
    src = case['src']
    if case.get('bytes'):
        src = ('<!DOCTYPE html><meta charset=utf-8>' + src).encode('utf-8', 'replace')
    expected = reference(src, rec)
    if expected is None:
        return
    rec.nontrivial(case['src'].count('<') > 2)
    with oracle():
        names = {e[0] for e, _ in gen.walk(expected)}
        rec.label(*sorted(names & {'svg', 'math', 'table', 'select', 'template', 'form', 'frameset', 'b'}))
    root = html5.parse(src)
    same('tree of ' + short(repr(src)), htmlref.plain(root), expected)
    if root.xml_parent is not None:
        fail('the top element of {} has a parent', short(repr(src)))
    same('value of ' + short(repr(src)), root.xml_value, gen.value(expected))
    # The body alone
    with oracle():
        body = next((c for c in expected[2] if not isinstance(c, str) and c[0] == 'body'), None)
    frag = html5.markup_fragment(src)
    same('fragment of ' + short(repr(src)), frag if frag is None else htmlref.plain(frag), body)


def check_use(case, rec):
    '''Serialise, query, select, edit'''
    from amara3.uxml import html5, tree, treeutil
    src = case['src']
    expected = reference(src, rec)
    if expected is None:
        return
    rec.nontrivial(case['src'].count('<') > 2)
    root = html5.parse(src)
    same('tree of ' + short(repr(src)), htmlref.plain(root), expected)
    with oracle():
        legal = all(all(map(gen.is_char, s)) for e, _ in gen.walk(expected) for s in [c for c in e[2] if isinstance(c, str)] + [v for _, v in e[1]]) \
            and all(name_ok(n) for t in (expected, sut.dump(root)) for e, _ in gen.walk(t) for n in [e[0]] + [k for k, _ in e[1]])
        rec.label('legal characters' if legal else 'illegal characters')
    s = root.xml_encode()
    if legal:
        again = tree.parse(s)
        same('tree serialised and parsed again, of ' + short(repr(src)), htmlref.plain(again), expected)
        same('second serialisation', again.xml_encode(), s)
    # Queries
    with oracle():
        all_elems = [p for p, n in sorted_nodes(expected) if not isinstance(n, str)]
        byname = {}
        for e, _ in gen.walk(expected):
            byname.setdefault(e[0], []).append(e)
    got = list(treeutil.descendants(root))
    same('number of descendants', len(got), len(all_elems) - 1)
    for name in list(byname)[:4]:
        if name_ok(name):
            found = list(root.xml_xpath('//' + name))
            if any(not isinstance(f, tree.element) for f in found):
                fail('//{} gives {!r}', name, found)
            same('//' + name + ' on ' + short(repr(src)), sorted(map(repr, map(htmlref.plain, found))), sorted(map(repr, byname[name])))
    # Edits
    run = edits.Run(rec)
    run.adopt(root)
    if not legal:
        run.check()
        return
    for op in case['ops']:
        run.step(op)
        run.check()
    run.check_content()


def name_ok(n):
    return bool(n) and gen.is_name_start(n[0]) and all(map(gen.is_name_char, n))


def sorted_nodes(t):
    from .c08 import plain_nodes
    return plain_nodes(t)


def soups():
    return st.fixed_dictionaries(dict(src=htmlref.soup(), bytes=st.sampled_from([False, False, False, True])))


def huge():
    '''Very long texts, values, names; very many children, attributes, levels'''
    n = gen.pick(st.sampled_from(gen.SIZES), st.integers(200, 12000))

    def make(t):
        kind, n, piece, before, after = t
        m = 100 + n % 900
        if kind == 'text':
            s = gen.counted(n, piece)
        elif kind == 'comment':
            s = '<!--' + gen.counted(n, '-x') + '-->'
        elif kind == 'value':
            s = '<p id="' + gen.counted(n, piece).replace('"', "'") + '" class=x>y</p>'
        elif kind == 'name':
            s = '<p ' + 'n' * (n // 8) + '=1><x' + 'n' * (n // 8) + '>z'
        elif kind == 'children':
            s = '<ul>' + ''.join('<li{}>{}'.format(' id=l{}'.format(i) if i % 3 else '', i) for i in range(m)) + '</ul>'
        elif kind == 'mixed':
            s = ''.join('{}<{}>'.format(i, 'br' if i % 2 else 'i>x</i') for i in range(m))
        elif kind == 'rows':
            s = '<table>' + ''.join('<tr><td>{}{}'.format(i, '<b>' if i == 3 else '') for i in range(m // 4)) + '</table>'
        elif kind == 'attributes':
            s = '<p ' + ' '.join('h{}={}'.format(i, i) for i in range(m)) + '>z'
        else:
            s = ''.join('<{}>{}'.format('div' if i % 3 else 'span', i) for i in range(m // 5))
        return dict(src=before + s + after, bytes=n % 4 == 0)
    return st.tuples(st.sampled_from(['text', 'comment', 'value', 'name', 'children', 'mixed', 'rows', 'attributes', 'deep']), n, st.sampled_from(['', ' ', '&amp;', 'é', '\n', '&lt', '"']),
                     htmlref.soup(6), htmlref.soup(6)).map(make)


def uses():
    src = gen.pick(htmlref.pages(), htmlref.soup(10))
    return st.fixed_dictionaries(dict(src=src, ops=edits.ops(12, parse=False)))


SUBS = [
    Sub('soup', soups, check_soup, 15000, 300000, examples=[
        dict(src='<table>x<b>y<tr><td><p><table></b>z'), dict(src='<svg><foreignobject><p><svg></p><b xlink:href=1>x'),
        dict(src='<b><p><i></b>x</i>y'), dict(src=''), dict(src='<a><div><a>x<table><a>y'), dict(src='<frameset><frame>'), dict(src='<p><b><b><b><b><p>x')]),
    Sub('huge', huge, check_soup, 300, 4000),
    Sub('use', uses, check_use, 6000, 150000),
]
