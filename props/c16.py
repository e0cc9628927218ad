'''XPath location paths select exactly the nodes they denote'''
from hypothesis import strategies as st

from vlib import gen, sut, xp
from vlib.harness import Sub, oracle, fail, short

RULE = ('Random trees (parsed, or made by the API with adjacent and equal texts) and random location paths over all axes and node tests, from any element, '
        'text, attribute or the root node; results are compared by identity and order with a reference evaluator working from the definitions of the '
        'axes on the plain tree. Non-trivial: some but not all nodes are selected. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['A path E//x with the child axis gives document order, as E/descendant::x; an absolute //x applies x to each node in turn', '/node() and //node() alone are left out']

G = xp.Gen()


def build(case):
    from amara3.uxml import tree as T
    if case['how'] == 'parse':
        with oracle():
            tree = gen.normal(case['tree'])
        return tree, T.parse(gen.render(tree, []))
    return case['tree'], sut.make(case['tree'])


def starts(model):
    '''All nodes to start from'''
    return list(model.order)


def real_context(real, ref, variables=None, tables=None, functions=None, extras=None):
    '''Context with the node as item'''
    from amara3.uxml.uxpath import context
    from amara3.uxml.uxpath import parse
    kw = dict(variables=variables, lookuptables=tables, functions=functions, extras=extras)
    if ref[0] == 'r':
        return context(real.top, **kw)
    if ref[0] == 'n':
        return context(real.nodes[ref[1]], force_root=False, **kw)
    attr = next(a for a in parse('@*').compute(context(real.nodes[ref[1]], force_root=False)) if a.xml_name == ref[2])
    return context(attr, force_root=False, **kw)


def check(case, rec):
    from amara3.uxml.uxpath import parse
    tree, top = build(case)
    real = xp.Real(top)
    rec.is_nontrivial = False
    with oracle():
        model = xp.Model(tree)
        nodes = starts(model)
        start = nodes[case['at'] % len(nodes)]
        rec.label('from ' + model.kind(start))
    for e in case['paths']:
        with oracle():
            text = xp.render(e, xp.Style(case['style'], parens=False))
            try:
                expected = xp.Eval(model).run(e, start)
            except (xp.TooBig, xp.Ambiguous):
                continue
            rec.label(*xp.count_kinds(e))
            if expected and len(set(expected)) < len(model.order):
                rec.is_nontrivial = True
            rec.label('selects ' + ('nothing' if not expected else 'one' if len(expected) == 1 else 'some'))
        ctx = real_context(real, start)
        parsed = parse(text)
        got = real.items(parsed.compute(ctx) if case['at'] % 2 else parsed(ctx), expected)
        if got != expected:
            fail('{} from {} of {}:\n  got      {}\n  expected {}', text, start, short(tree), short(got), short(expected))
    if sut.dump(top) != tree:
        fail('the tree {} became {}', short(tree), short(sut.dump(top)))


def cases():
    path = gen.pick(G.rel, G.rel, G.rel, G.abs).map(xp.listed)
    return st.fixed_dictionaries(dict(tree=gen.pick(xp.xtrees(), xp.xtrees(), xp.xtrees(empty=True)), how=st.sampled_from(['parse', 'make']), at=st.integers(0, 40),
                                      style=gen.tapes(20), paths=st.lists(path, min_size=1, max_size=4)))


def single_steps():
    '''One step, from every node, of a bigger tree'''
    path = G.step.map(lambda s: xp.listed(['rel', [['', s]]]))
    return st.fixed_dictionaries(dict(tree=gen.pick(xp.xtrees(max_tokens=24), xp.xtrees(max_tokens=24, empty=True)), how=st.sampled_from(['parse', 'make']), at=st.integers(0, 60),
                                      style=st.just([]), paths=st.lists(path, min_size=3, max_size=8)))


def wide():
    '''Elements with many children and deep chains of elements'''
    piece = gen.pick(st.sampled_from(['x', 'y', '1']), st.sampled_from(xp.NAMES).map(lambda n: [n, [], []]), st.sampled_from(xp.NAMES).map(lambda n: [n, [['k', '1']], ['x']]),
                      st.sampled_from(xp.NAMES).map(lambda n: [n, [], [[n, [], []], 'y']]))
    blocks = st.lists(st.tuples(st.lists(piece, min_size=1, max_size=4), st.sampled_from([1, 2, 5, 10, 17, 33, 70])), min_size=1, max_size=4)

    def make(t):
        parts, wrap, deep = t
        kids = [c for p, n in parts for _ in range(n) for c in p][:150]
        tree = ['a', [], gen_copy(kids)]
        for n in wrap:
            tree = [n, [], ['x', tree, [n, [], []]]]
        for i in range(deep):
            tree = ['b' if i % 3 else 'a', [], [tree]]
        return tree
    tree = st.tuples(blocks, st.lists(st.sampled_from(xp.NAMES), max_size=2), st.sampled_from([0, 0, 0, 1, 10, 40])).map(make)
    path = gen.pick(st.tuples(G.step, st.lists(st.tuples(st.sampled_from(['/', '//']), G.step), max_size=1)).map(lambda t: xp.listed(['rel', [['', t[0]]] + t[1]])), G.abs.map(xp.listed))
    return st.fixed_dictionaries(dict(tree=tree, how=st.sampled_from(['parse', 'make']), at=gen.pick(st.integers(0, 12), st.integers(0, 500)),
                                      style=st.just([]), paths=st.lists(path, min_size=1, max_size=3)))


def huge():
    '''Hundreds of children, or levels'''
    far = st.tuples(st.just('step'), st.sampled_from(['preceding-sibling', 'preceding-sibling', 'following-sibling', 'following-sibling', 'preceding', 'following', 'ancestor', 'descendant', 'child']),
                    st.sampled_from(['node()', '*', 'text()', 'c', 'd']))
    step = gen.pick(G.step, far, far)
    child = st.tuples(st.just('step'), st.just('child'), st.sampled_from(['*', 'text()', 'c', 'd']))
    one = step.map(lambda s: ['rel', [['', s]]])
    path = gen.pick(one, one, one, child.map(lambda s: ['abs', '//', ['rel', [['', s]]]])).map(xp.listed)
    case = st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=6), how=st.sampled_from(['parse', 'make']), at=gen.pick(st.integers(0, 3000), st.integers(0, 12)), style=st.just([]), paths=st.lists(path, min_size=1, max_size=2)))
    return gen.huge_cases(lambda: case, kinds='children mixed mixed deep text', many=600)()


def gen_copy(t):
    return t if isinstance(t, str) else [gen_copy(x) for x in t]


SUBS = [
    Sub('paths', xp.respelled(cases, 'paths'), check, 9000, 250000),
    Sub('steps', xp.respelled(single_steps, 'paths'), check, 4000, 100000),
    Sub('huge', huge, check, 500, 6000),
    Sub('wide', xp.respelled(wide, 'paths'), check, 500, 15000),
]
