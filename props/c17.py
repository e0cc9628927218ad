'''XPath predicates, operators and sequences have their defined meaning'''
from hypothesis import strategies as st

from vlib import gen, sut, xp
from vlib.harness import Sub, oracle, fail, short
from .c16 import build, real_context, starts

RULE = ('Random trees, contexts, variables (text, numbers, booleans, nodes) and nested expressions of predicates, comparisons, and/or, minus, union, '
        'sequences, literals, with paths and functions inside; results compared item by item (type, value, identity, order) with a reference evaluator. '
        'Non-trivial: uses an operator, predicate or sequence, and has a result other than the empty sequence. many: hundreds of items.')
ASSUMPTIONS = ['Comparing a node without text to a boolean, values of integers beyond 2^53 as text, and the name of text nodes are left out as not defined clearly']

G = xp.Gen()
G_DEEP = xp.Gen(depth=3)


def variables():
    return st.fixed_dictionaries(dict(
        n=st.integers(0, 40), s=st.sampled_from(xp.VALUES), i=st.integers(-2, 12), f=st.sampled_from([0.0, -0.0, 1.5, -1.0, 0.5, 1e-7, float(10), 2.0, 'NaN', 'Infinity', '-Infinity', 123456.789]),
        t=st.booleans()))


def bind(vs, model, real):
    '''Variables for the reference and for the code under test'''
    elems = [n for n in model.order if n[0] == 'n' and model.kind(n) == 'element']
    ref = elems[vs['n'] % len(elems)]
    f = float(vs['f'])
    return dict(vs, n=ref, f=f, i=float(vs['i'])), dict(vs, n=real.nodes[ref[1]], f=f)


def decide(case, rec, exprs, top, tree, real, model, start, interesting):
    from amara3.uxml.uxpath import parse
    with oracle():
        vars_ref, vars_real = bind(case['vars'], model, real)
    for e in exprs:
        with oracle():
            text = xp.render(e, xp.Style(case['style'], parens=False))
            try:
                expected = xp.Eval(model, vars_ref).run(e, start)
            except (xp.TooBig, xp.Ambiguous) as ex:
                rec.label('skipped: ' + (str(ex) or 'too big'))
                continue
            kinds = xp.count_kinds(e)
            rec.label(*kinds)
            if expected and interesting(kinds):
                rec.is_nontrivial = True
            rec.label('gives ' + ('nothing' if not expected else 'node' if xp.is_node(expected[0]) else type(expected[0]).__name__))
        ctx = real_context(real, start, vars_real)
        got = real.items(parse(text).compute(ctx), expected)
        if not xp.same_items(got, expected):
            fail('{} from {} of {} with {}:\n  got      {}\n  expected {}', text, start, short(tree), vars_ref, short(got), short(expected))


def check(case, rec):
    tree, top = build(case)
    real = xp.Real(top)
    rec.is_nontrivial = False
    with oracle():
        model = xp.Model(tree)
        nodes = starts(model)
        start = nodes[case['at'] % len(nodes)]
    decide(case, rec, case['exprs'], top, tree, real, model, start,
           lambda kinds: any(k.startswith('op ') or k in ('pred', 'neg', 'seq') for k in kinds))
    if sut.dump(top) != tree:
        fail('the tree {} became {}', short(tree), short(sut.dump(top)))


def cases(g, n):
    def f():
        expr = gen.pick(g.any, g.nodes, g.vals).map(xp.listed)
        return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=14), how=st.sampled_from(['parse', 'make']), at=st.integers(0, 40), vars=variables(),
                                          style=gen.tapes(20), exprs=st.lists(expr, min_size=1, max_size=n)))
    return f


def comparisons():
    '''Comparisons, and/or and predicates right at the top, of all kinds of operands'''
    layer = G.layers[1]
    a = gen.pick(layer[0], layer[1], st.just(['seq', []]))
    op = st.sampled_from(['=', '!=', '<', '<=', '>', '>=', 'and', 'or', '=', '!='])
    e = gen.pick(st.tuples(st.just('bin'), op, a, a), st.tuples(st.just('neg'), a), st.tuples(st.just('bin'), st.just('|'), layer[0], layer[0])).map(xp.listed)
    return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=14), how=st.just('parse'), at=st.sampled_from([0, 0, 1, 2, 5]), vars=variables(),
                                      style=gen.tapes(8), exprs=st.lists(e, min_size=1, max_size=5)))


def many():
    '''Positions, comparisons, unions and sequences of hundreds of items'''
    n = gen.pick(st.integers(0, 20), st.integers(100, 520), st.sampled_from([127, 128, 129, 255, 256, 257, 299, 300, 511, 512])).map(lambda i: ['num', str(i)])

    def all_(axis, test):
        if axis == 'attribute':
            return ['abs', '/', ['rel', [['', ['step', 'descendant', '*']], ['/', ['step', axis, test]]]]]
        return ['abs', '/', ['rel', [['', ['step', 'descendant', test]]]]]
    one = st.sampled_from([all_('child', 'c'), all_('child', 'd'), all_('child', '*'), all_('attribute', 'i'), all_('child', 'text()'), all_('descendant', 'text()'),
                           ['rel', [['', ['step', 'descendant', 'c']]]], ['rel', [['', ['step', 'child', '*']]]], ['rel', [['', ['step', 'child', 'node()']]]],
                           ['rel', [['', ['step', 'descendant', 'd']], ['/', ['step', 'attribute', 'i']]]], ['rel', [['', ['step', 'descendant', '*']], ['/', ['step', 'child', 'text()']]]]])
    op = st.sampled_from(['=', '!=', '<', '<=', '>', '>='])
    dot = ['rel', [['', ['.']]]]
    test = gen.pick(n, st.tuples(st.just('bin'), op, st.just(dot), n), st.sampled_from([['rel', [['', ['step', 'child', 'text()']]]], ['rel', [['', ['step', 'attribute', 'i']]]], ['rel', [['', ['step', 'following-sibling', 'd']]]]]))
    e = gen.pick(st.tuples(st.just('pred'), one, st.lists(test, min_size=1, max_size=3)), st.tuples(st.just('pred'), one, st.lists(n, min_size=1, max_size=1)),
                 st.tuples(st.just('bin'), op, one, n), st.tuples(st.just('bin'), op, one, one), st.tuples(st.just('bin'), st.just('|'), one, one),
                 st.tuples(st.just('seq'), st.lists(gen.pick(one, n), min_size=2, max_size=3)), st.tuples(st.just('call'), st.just('count'), st.tuples(one)),
                 st.lists(n, min_size=20, max_size=150).map(lambda l: ['seq', l]), st.lists(n, min_size=20, max_size=100).map(lambda l: ['pred', ['seq', l], [['bin', '>', dot, ['num', '250']]]]),
                 st.tuples(n, st.sampled_from([10, 33, 64, 90])).map(lambda t: ['neg', t[0]] if t[1] == 10 else ['call', 'concat', [['str', str(i)] for i in range(t[1])]]),
                 st.tuples(st.sampled_from(['and', 'or', '|']), one, st.integers(3, 12)).map(lambda t: chain(*t)))
    case = st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=5), how=st.sampled_from(['parse', 'make']), at=st.sampled_from([0, 0, 1, 2, 300]), vars=variables(), style=st.just([]),
                                      exprs=st.lists(e.map(xp.listed), min_size=1, max_size=3)))
    return gen.huge_cases(lambda: case, kinds='children mixed mixed', many=320)()


def chain(op, e, n):
    for i in range(n):
        e = ['bin', op, e, ['rel', [['', ['step', 'descendant', 'cdab'[i % 4]]]]]]
    return e


def predicates():
    n0 = G.nodes0
    p = G.layers[1][2]
    e = st.tuples(st.just('pred'), n0, st.lists(gen.pick(G.layers[0][2], p), min_size=1, max_size=3)).map(xp.listed)
    return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=20), how=st.sampled_from(['parse', 'make']), at=st.integers(0, 10), vars=variables(),
                                      style=gen.tapes(8), exprs=st.lists(e, min_size=1, max_size=4)))


def unusual():
    '''Predicates on the root node, attributes, texts and mixtures, which go on from there'''
    def rel(*steps):
        return ['rel', [['' if i == 0 else '/', s] for i, s in enumerate(steps)]]
    root = ['abs', '/', None]
    up = rel(['step', 'ancestor-or-self', 'node()'])
    base = gen.pick(st.sampled_from([root, root, up, rel(['..']), rel(['step', 'attribute', '*']), ['abs', '//', rel(['step', 'attribute', '*'])], ['abs', '//', rel(['step', 'child', 'text()'])],
                                      ['seq', [root, rel(['step', 'descendant-or-self', 'node()'])]], rel(['step', 'ancestor', 'node()']), ['bin', '|', root, rel(['step', 'child', '*'])],
                                      ['bin', '|', rel(['step', 'attribute', '*']), rel(['step', 'child', 'node()'])]]), G.nodes0)
    start = st.sampled_from([['.'], ['.'], ['..'], ['step', 'self', 'node()'], ['step', 'self', '*'], ['step', 'child', '*'], ['step', 'parent', 'node()'], ['step', 'ancestor-or-self', 'node()']])
    way = st.tuples(start, st.lists(st.tuples(st.sampled_from(['/', '/', '//']), G.step), max_size=2)).map(lambda t: ['rel', [['', t[0]]] + t[1]])
    way = gen.pick(way, way, st.just(root), G.abs)
    pred = gen.pick(
        way, st.tuples(st.just('bin'), st.sampled_from(['=', '!=', '<', '>=']), st.tuples(st.just('call'), st.sampled_from(['count', 'string-length', 'number', 'boolean']), st.tuples(way)), G.num),
        st.tuples(st.just('bin'), st.sampled_from(['=', '!=']), st.tuples(st.just('call'), st.sampled_from(['name', 'string']), st.tuples(way)), G.string),
        st.tuples(st.just('bin'), st.sampled_from(['=', '!=']), way, way), st.tuples(st.just('call'), st.just('not'), st.tuples(way)),
        st.tuples(st.just('pred'), way, st.lists(gen.pick(G.num, way), min_size=1, max_size=2)), G.num)
    one = st.tuples(st.just('pred'), base, st.lists(pred, min_size=1, max_size=3))
    e = gen.pick(one, one, st.tuples(st.just('join'), one, G.steps), st.tuples(st.just('call'), st.sampled_from(['string', 'name', 'count']), st.tuples(one)), pred).map(xp.listed)
    return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=12), how=st.sampled_from(['parse', 'make']), at=gen.pick(st.just(0), st.integers(0, 20)), vars=variables(),
                                      style=gen.tapes(8), exprs=st.lists(e, min_size=1, max_size=4)))


def casts():
    '''Comparisons, minus and predicates with texts which are numbers, or nearly'''
    text = xp.number_texts()
    number = st.sampled_from(['0', '1', '5', '0.5', '.5', '5.', '10', '1.5', '100', '2', '3', '05', '5.0'])

    def rel(*steps):
        return ['rel', [['' if i == 0 else '/', s] for i, s in enumerate(steps)]]

    def make(t):
        texts, ops, lits, vs, own, nums = t
        k1, k2, a, b, c, d = texts
        tree = ['r', [], [['a', [['k', k1]], [a] if a else []], ['b', [], [b] if b else []], ['a', [['k', k2]], [['c', [], [c] if c else []]] + ([d] if d else [])]]]
        nodes = [rel(['step', 'child', '*']), rel(['step', 'child', 'a']), rel(['step', 'child', 'b']), rel(['step', 'child', '*'], ['step', 'attribute', 'k']), rel(['step', 'child', '*'], ['step', 'child', 'text()'])]
        literal = [['num', n] for n in nums] + [['str', o] for o in own if '"' not in o or "'" not in o] + [['var', 's'], ['var', 'f'], ['call', 'true', []], ['neg', ['num', nums[0]]], ['str', b]]
        out = []
        for op, (i, j, k, way) in zip(ops, lits):
            left, right = nodes[i % 5], (literal + nodes)[j % (len(literal) + 5)]
            if way == 0:
                left, right = right, left
            elif way == 1:
                left = literal[k % len(literal)]
            elif way == 2:
                out.append(['pred', left, [['bin', op, rel(['.']), right]]])
                continue
            elif way == 3:
                out.append(['neg', left])
                continue
            elif way == 4:
                left = ['neg', left]
            elif way == 5:
                left = ['call', ['number', 'string', 'boolean'][k % 3], [left]]
            out.append(['bin', op, left, right])
        return dict(tree=tree, how='parse', at=1, vars=vs, style=[], exprs=out)
    vs = st.fixed_dictionaries(dict(n=st.integers(0, 9), s=text, i=st.integers(-2, 12), f=gen.pick(st.sampled_from([0.5, 5.0, -5.0, 0.0, 'NaN', 'Infinity']), st.integers(0, 4000).map(lambda n: n / 100)), t=st.booleans()))
    op = st.sampled_from(['=', '!=', '<', '<=', '>', '>='])
    return st.tuples(st.lists(text, min_size=6, max_size=6), st.lists(op, min_size=8, max_size=8), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 20), st.integers(0, 20), st.integers(0, 8)), min_size=8, max_size=8),
                     vs, st.lists(text, min_size=2, max_size=2), st.lists(number, min_size=2, max_size=2)).map(make)


SUBS = [
    Sub('expressions', xp.respelled(cases(G, 3)), check, 4000, 100000),
    Sub('deep', xp.respelled(cases(G_DEEP, 1)), check, 2500, 80000),
    Sub('comparisons', xp.respelled(comparisons), check, 4000, 80000),
    Sub('predicates', xp.respelled(predicates), check, 3000, 80000),
    Sub('many', many, check, 400, 8000),
    Sub('unusual', xp.respelled(unusual), check, 3000, 80000),
    Sub('casts', casts, check, 3000, 80000),
]
