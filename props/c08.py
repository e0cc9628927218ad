'''Tree selectors yield exactly the matching nodes in document order'''
import re

from hypothesis import strategies as st

from vlib import gen, sut
from vlib.harness import Sub, oracle, fail, short

RULE = ('Random trees (parsed, or made by the API with adjacent and equal texts), queried by every selector with sources of every kind; '
        'results are compared by identity and order with a walk over the plain tree. Non-trivial: some, but not all of the candidates are to be selected. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = []

PATS = ['a', 'a.*', '.*b', '[ab]', 'é|x', '', '.', 'b$', '^c', '(?i)A', r'\w+', '[^a]', 'aa', r'a\b', r'.-', 'a.b', 'as', 'É', 'bi', r'\W', 'a b', 'b|a$', '(?=a)', 'a{2}', '(?!a)', '.+?']
NAMES = ['a', 'b', 'c', 'é', 'aa', 'ab', 'a-b', 'A', 'x', 'É', 'aſ', 'ﬁ', 'bİ', 'a.b', 'Aa']
FLAGS = [0, 0, 0, int(re.I), int(re.A), int(re.X), int(re.I | re.A), int(re.S)]
VALUES = ['', 'x', 'y', '1', ' ', 'xx', 'xy', 'é', '\n', 'x y', 'y x', ' x', 'x ', 'X', 'é x', 'x\ny', 'xx x', '0', 'None']


def run_query(top, tree, q, rec):
    '''Decide one query'''
    from amara3.uxml import treeutil as U
    from amara3.uxml.tree import element
    with oracle():
        order = [(p, n) for p, n in plain_nodes(tree)]
    real = dict(sut.nodes(top))
    path_of = {id(n): p for p, n in real.items()}
    with oracle():
        plain = dict(order)
        elems = [p for p, n in order if not isinstance(n, str)]
        at = elems[q['at'] % len(elems)]

        def desc(p):
            return [d for d in elems if len(d) > len(p) and d[:len(p)] == p]

        def kids(p):
            return [p + (i,) for i in range(len(plain[p][2]))]
        kind = q['source']
        if kind == 'element':
            candidates, source = kids(at), real[at]
        elif kind == 'children-list':
            candidates, source = kids(at), list(real[at].xml_children)
        elif kind == 'children-iter':
            candidates, source = kids(at), iter(real[at].xml_children)
        elif kind == 'nodes':
            every = [p for p, _ in order]
            candidates = [every[i % len(every)] for i in q['pick']]
            source = (real[p] for p in candidates)
        elif kind == 'tuple':
            every = [p for p, _ in order]
            candidates = [every[i % len(every)] for i in q['pick']]
            source = tuple(real[p] for p in candidates)
        else:
            candidates, source = desc(at), None
    if kind == 'descendants':
        source = U.descendants(real[at])
    elif kind == 'chain':
        source = U.select_elements(U.descendants(real[at]))
    what = q['what']
    with oracle():
        cand_elems = [p for p in candidates if not isinstance(plain[p], str)]
        arg = q.get('arg')
        if what == 'descendants':
            expected, candidates = desc(at), [p for p, _ in order if len(p) > len(at)]
        elif what == 'following_siblings':
            inner = [p for p, _ in order if p]
            if not inner:
                return
            at = inner[q['at'] % len(inner)]
            parent = at[:-1]
            expected = [parent + (i,) for i in range(at[-1] + 1, len(plain[parent][2]))]
            candidates = kids(parent)
            rec.label('following_siblings of ' + ('text' if isinstance(plain[at], str) else 'element'))
        elif what == 'select_elements':
            expected = cand_elems
        elif what == 'select_name':
            expected = [p for p in cand_elems if plain[p][0] == arg]
        elif what == 'select_name_pattern':
            expected = [p for p in cand_elems if re.match(arg, plain[p][0], q['flags'])]
        elif what == 'select_value':
            expected = [p for p in cand_elems if gen.value(plain[p]) == arg]
        elif what == 'select_attribute':
            pairs = {p: dict(map(tuple, plain[p][1])) for p in cand_elems}
            expected = [p for p in cand_elems if arg in pairs[p] and (q['val'] is None or pairs[p][arg] == q['val'])]
        rec.label(what, what + ' from ' + kind if what.startswith('select') else what)
        if expected and len(expected) < len(candidates):
            rec.is_nontrivial = True
    if what == 'descendants':
        result = U.descendants(real[at])
    elif what == 'following_siblings':
        result = U.following_siblings(real[at])
    elif what == 'select_elements':
        result = U.select_elements(source)
    elif what == 'select_name':
        result = U.select_name(source, arg)
    elif what == 'select_name_pattern':
        result = U.select_name_pattern(source, re.compile(arg, q['flags']))
    elif what == 'select_value':
        result = U.select_value(source, arg)
    elif what == 'select_attribute':
        result = U.select_attribute(source, arg, q['val']) if q['val'] is not None or q['at'] % 2 else U.select_attribute(source, arg)
    got = [path_of.get(id(n), n) for n in result]
    if got != expected:
        fail('{} {!r} {!r} from {} at {} of {}:\n  got paths {}\n  expected  {}', what, arg, q.get('val'), kind, at, short(tree), short(got), short(expected))


def plain_nodes(tree):
    stack = [((), tree)]
    while stack:
        p, n = stack.pop()
        yield p, n
        if not isinstance(n, str):
            stack.extend((p + (i,), c) for i, c in reversed(list(enumerate(n[2]))))


def check(case, rec):
    tree = case['tree']
    rec.is_nontrivial = False
    if case['how'] == 'parse':
        from amara3.uxml import tree as T
        with oracle():
            tree = gen.normal(tree)
        top = T.parse(gen.render(tree, []))
    else:
        top = sut.make(tree)
    for q in case['queries']:
        run_query(top, tree, q, rec)
    if sut.dump(top) != tree:
        fail('the tree {} became {}', short(tree), short(sut.dump(top)))


def cases():
    tree = gen.trees(name=st.sampled_from(NAMES), aname=st.sampled_from(['a', 'b', 'é', 'x']), value=st.sampled_from(VALUES),
                     text=st.sampled_from(VALUES), merge=False, empty_text=True, max_tokens=25, min_tokens=0)
    big = gen.trees(name=st.sampled_from(NAMES), aname=st.sampled_from(['a', 'b', 'é', 'x']), value=st.sampled_from(VALUES),
                    text=st.sampled_from(VALUES), merge=False, empty_text=True, max_tokens=30, min_tokens=12, heavy=False)
    at = st.integers(0, 30)
    source = st.sampled_from(['element', 'element', 'children-list', 'children-iter', 'nodes', 'tuple', 'descendants', 'descendants', 'chain'])
    pick = st.lists(st.integers(0, 40), max_size=6)

    def q(what, **kw):
        return st.fixed_dictionaries(dict(what=st.just(what), at=at, source=source, pick=pick, **kw))
    query = gen.pick(
        q('descendants'), q('following_siblings'), q('select_elements'), q('select_name', arg=st.sampled_from(NAMES)),
        q('select_name_pattern', arg=st.sampled_from(PATS), flags=st.sampled_from(FLAGS)), q('select_value', arg=st.sampled_from(VALUES)),
        q('select_attribute', arg=st.sampled_from(['a', 'b', 'é', 'x', 'nope']), val=gen.pick(st.none(), st.sampled_from(VALUES))))
    return st.fixed_dictionaries(dict(tree=gen.pick(tree, big), how=st.sampled_from(['parse', 'make']), queries=st.lists(query, min_size=1, max_size=6)))


SUBS = [
    Sub('queries', cases, check, 10000, 300000),
    Sub('large', gen.enlarged_cases(cases, False), check, 1000, 30000),
    Sub('huge', gen.huge_cases(cases, False, many=600), check, 200, 5000),
]
