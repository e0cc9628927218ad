'''The tree built from MicroXML is the document'''
from hypothesis import strategies as st

from vlib import gen, sut, mutate, ref_mx
from vlib.harness import Sub, oracle, same, fail, short

RULE = ('Documents rendered from random trees, parsed by tree.parse, amara3.uxml.parse and treebuilder; and histories of documents '
        '(well-formed, or broken) given to one and the same builder. Non-trivial: more than one element with text or attributes; '
        'histories: at least two documents, one of them accepted. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = []


def check_values(what, elem, tree):
    from amara3.uxml.tree import strval
    flat = dict(sut.nodes(elem))

    def at(path):
        n = tree
        for i in path:
            n = n[2][i]
        return n
    items = list(flat.items())
    if len(items) > 60:
        # The largest, and a few others
        items = sorted(items, key=lambda t: (len(t[0]), t[0]))[:6] + items[::len(items) // 8 + 1]
    for path, n in items:
        v = gen.value(at(path))
        same('{}: xml_value at {}'.format(what, path), n.xml_value, v)
        same('{}: strval at {}'.format(what, path), strval(n), v)


def check_doc(case, rec):
    from amara3.uxml import tree as T, parse
    tree, src = case['tree'], case['src']
    with oracle():
        gen.describe(rec, tree)
        rec.nontrivial(gen.rich(tree))
    for what, f in (('tree.parse', T.parse), ('uxml.parse', parse), ('treebuilder', T.treebuilder().parse)):
        root = f(src)
        same('{} of {!r}'.format(what, short(src)), sut.dump(root), tree)
        if root.xml_parent is not None:
            fail('{} of {!r}: document element has the parent {!r}', what, short(src), root.xml_parent)
    check_values(repr(short(src)), root, tree)
    # The caller only keeps the top
    again = sut.dump(root)
    same('tree of {!r}, later'.format(short(src)), again, tree)


def new_builder(src):
    from amara3.uxml import tree as T
    try:
        root = T.treebuilder().parse(src)
    except Exception:
        return None
    return [root and sut.dump(root)]


def check_history(case, rec):
    from amara3.uxml import tree as T, parse
    with oracle():
        verdicts = [ref_mx.judge(src) for src in case['docs']]
        n = sum(v[0] == 'accept' for v in verdicts)
        rec.nontrivial(len(verdicts) > 1 and n)
        for a, b in zip(verdicts, verdicts[1:]):
            rec.label('{} then {}'.format(a[0], b[0]))
    p = T.treebuilder().parse if case['which'] else parse
    kept = []
    errors = []     # With all that they refer to
    for i, (src, (verdict, expected)) in enumerate(zip(case['docs'], verdicts)):
        if verdict == 'either':
            rec.label('compared with a new builder')
        alone = new_builder(src)
        try:
            root = p(src)
        except Exception as e:
            errors.append(e)
            if alone is not None:
                fail('document {} of {!r} is only rejected ({!r}) if not the first', i, case['docs'], e)
            if verdict == 'accept':
                fail('document {} of {!r}: {!r}', i, case['docs'], e)
            continue
        if verdict == 'reject':
            fail('document {} of {!r} is accepted', i, case['docs'])
        same('document {} of {!r}, compared to a new builder'.format(i, case['docs']), [root and sut.dump(root)], alone)
        if verdict == 'accept':
            got = gen.events(gen.normal(sut.dump(root)))
            same('document {} of {!r}'.format(i, case['docs']), got, expected)
            if root.xml_parent is not None:
                fail('document {} of {!r} has a parent', i, case['docs'])
            kept.append((i, root, expected))
    for i, root, expected in kept:
        same('document {} of {!r}, at the end'.format(i, case['docs']), gen.events(gen.normal(sut.dump(root))), expected)


def docs(**kw):
    return st.tuples(gen.trees(**kw), gen.tapes(20)).map(lambda t: dict(tree=t[0], src=gen.render(*t)))


def large():
    return st.tuples(gen.larger(gen.trees(max_tokens=6)), gen.tapes(8)).map(lambda t: dict(tree=t[0], src=gen.render(*t)))


def huge():
    return st.tuples(gen.trees(max_tokens=4), gen.huge_ops(), gen.tapes(4)).map(lambda t: (gen.huge(*t[:2]), t[2])).map(lambda t: dict(tree=t[0], src=gen.render(*t)))


def histories():
    doc = st.tuples(gen.trees(max_tokens=4, heavy=False, max_attrs=1), gen.tapes(6)).map(lambda t: gen.render(*t))
    broken = mutate.mutated(gen.trees(max_tokens=4, heavy=False, max_attrs=1))
    cut = st.tuples(doc, st.integers(1, 200)).map(lambda t: t[0][:max(1, t[1] % len(t[0]))])
    return st.fixed_dictionaries(dict(docs=st.lists(gen.pick(doc, doc, doc, broken, broken, cut, cut, st.sampled_from(['', ' ', '\n'])), min_size=1, max_size=5), which=st.booleans()))


SUBS = [
    Sub('documents', docs, check_doc, 7000, 200000),
    Sub('large', large, check_doc, 800, 25000),
    Sub('huge', huge, check_doc, 300, 6000),
    Sub('histories', histories, check_history, 5000, 120000,
        examples=[dict(docs=['<a><b>', '<c><d>x</d></c>', '<a></b>', '<e>y</e>'], which=w) for w in (True, False)]),
]
