'''XPath functions compute what their documentation says'''
import math

from hypothesis import strategies as st

from vlib import gen, sut, xp
from vlib.harness import Sub, oracle, fail, short
from .c16 import build, real_context, starts

RULE = ('Calls of every implemented function with arguments of all kinds: literals, variables (any Unicode text, any integers and floats with NaN, infinities and '
        'zeros, booleans), nodes, empty and longer sequences, nested calls, omitted arguments; from elements, text, attributes and the root. Results '
        'are compared with reference functions. Non-trivial: at least one argument is not a literal of the expected type. long: long strings, many arguments.')
ASSUMPTIONS = ['concat() of longer sequences, name() of text nodes, and integers beyond 2^53 as text are left out as not defined clearly']

TABLES = {'t': {'a': 'A', 'x': '', '': 'empty', '1': 2.5, 'é': 'É', ' x ': 'spaced', '10': 0.0}, 'u': {}, '': {'a': 'of no table'}, '2': {'true': True}}


def path(*steps):
    return ['rel', [['' if i == 0 else '/', s] for i, s in enumerate(steps)]]


def child(name):
    return ['step', 'child', name]


NODES = [path(['.']), path(['..']), path(child('a')), path(child('b')), path(child('*')), path(child('text()')), path(['step', 'attribute', 'k']), path(['step', 'attribute', '*']),
         path(child('a'), child('text()')), ['abs', '/', None], ['abs', '//', path(child('b'))], path(child('nope')), ['seq', []],
         ['pred', ['abs', '//', path(child('*'))], [['num', '2']]], path(['step', 'descendant', 'text()']), path(['step', 'following-sibling', 'node()'])]


def unicode_text(n=0):
    return gen.pick(st.sampled_from(xp.VALUES), gen.texts(n), gen.texts(n, simple=True),
                     st.sampled_from(['aXbXc', 'abcabc', '12345', ' 12 ', '-0', '-.5', '1e3', '+1', '1.', '.', '-', '- 1', 'NaN', 'Infinity', '\n1\t', '１２', '1_000', '\u00a01', '0x10', '1,5',
                                      'inf', '-1.50', '00', '𝒳y𝒳', 'e\u0301', 'İ', 'ß', 'true', 'false', '1\u2003', '--1', '.5.', '\x0c1'[1:]]))


NUMBERS = ['NaN', 'Infinity', '-Infinity', 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -1.5, 0.1, 1e-7, 1e-320, 5e-324, 1e15, 123456789.125, 1 / 3, 1e6, 100000.5, 1e16 + 0.0, 0.30000000000000004, 1e-5, 2.0 ** 52 + .5]


def check(case, rec):
    from amara3.uxml.uxpath import parse
    tree, top = build(case)
    real = xp.Real(top)
    rec.is_nontrivial = False
    with oracle():
        model = xp.Model(tree)
        nodes = starts(model)
        start = nodes[case['at'] % len(nodes)]
        variables = {k: float(v) if isinstance(v, str) and v in ('NaN', 'Infinity', '-Infinity') and k[0] == 'f' else v for k, v in case['vars'].items()}
        as_ref = {k: float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v for k, v in variables.items()}
    for e in case['calls']:
        with oracle():
            text = xp.render(e, xp.Style(case['style'], parens=False))
            try:
                expected = xp.Eval(model, as_ref, TABLES).run(e, start)
            except (xp.TooBig, xp.Ambiguous) as ex:
                rec.label('skipped: ' + str(ex))
                continue
            rec.label(*(k for k in xp.count_kinds(e) if k.endswith('()')))
            rec.label(e[1] + ' from ' + model.kind(start))
            for x in expected:
                if isinstance(x, float) and not math.isfinite(x):
                    rec.label('gives NaN or infinity')
            if not e[2] or any(a[0] not in ('str', 'num') for a in e[2]):
                rec.is_nontrivial = True
        ctx = real_context(real, start, variables, TABLES)
        got = real.items(parse(text).compute(ctx), expected)
        if not xp.same_items(got, expected):
            fail('{} from {} of {} with {}:\n  got      {}\n  expected {}', text, start, short(tree), as_ref, short(got), short(expected))
    if sut.dump(top) != tree:
        fail('the tree {} became {}', short(tree), short(sut.dump(top)))


def quoteless(s):
    return s.replace('"', '\u201d') if '"' in s and "'" in s else s


def calls():
    string_lit = st.tuples(st.just('str'), unicode_text().map(quoteless)).map(list)
    num_lit = st.tuples(st.just('num'), st.sampled_from(['0', '1', '2', '3', '4', '1.5', '2.5', '0.5', '.5', '10', '7.', '0.0', '100', '12345.678', '0.000001', '1000000', '0.1'])).map(list)
    neg = num_lit.map(lambda n: ['neg', n])
    var = st.sampled_from(['s', 's2', 'f', 'f', 'i', 't']).map(lambda v: ['var', v])
    nodes = st.sampled_from(NODES)
    boolean = st.sampled_from([['call', 'true', []], ['call', 'false', []], ['bin', '=', ['num', '1'], ['num', '1']], ['bin', '<', path(child('a')), ['num', '1']]])
    arg0 = gen.pick(string_lit, num_lit, neg, var, var, nodes, nodes, boolean)

    def call(name, *args):
        return st.tuples(st.just('call'), st.just(name), st.tuples(*args).map(list)).map(list)

    def layer(arg):
        s = gen.pick(string_lit, var, arg)
        n = gen.pick(num_lit, neg, st.just(['var', 'f']), arg)
        seq = gen.pick(arg, st.tuples(st.just('seq'), st.lists(arg, max_size=4)).map(list), nodes)
        plain = st.sampled_from(NODES[:7] + [['call', 'string', []], ['call', 'name', []], ['call', 'string-length', []], ['call', 'count', [path(child('*'))]], ['call', 'concat', [path(['.']), ['str', '-']]],
                                             ['call', 'string', [path(['step', 'attribute', 'k'])]], ['num', '1'], ['pred', path(child('*')), [['num', '1']]]])
        return gen.pick(
            call('name', seq), call('name'), call('count', seq), call('string', seq), call('string', seq), call('string'), call('concat', s, s), call('concat', s, s, s, s),
            call('starts-with', s, s), call('contains', s, s), call('substring-before', s, s), call('substring-after', s, s),
            call('substring', s, n), call('substring', s, n, n), call('substring', s, n, n), call('string-length'), call('string-length', s),
            call('boolean', seq), call('boolean', seq), call('not', seq), call('true'), call('false'), call('number', seq), call('number', seq), call('number'),
            call('for-each', nodes, plain.map(lambda e: ['quoted', e])),
            call('lookup', gen.pick(st.just(['str', 't']), st.just(['str', 't']), s), s))
    c1 = layer(arg0)
    c2 = layer(gen.pick(arg0, c1))
    # A query within a query sees the same tables and variables
    key = st.sampled_from([path(['.']), path(['step', 'attribute', 'k']), ['call', 'name', []], ['str', 'a'], ['str', ''], ['num', '1'], ['var', 's2']])
    inner = gen.pick(key.map(lambda k: ['call', 'lookup', [['str', 't'], k]]), st.sampled_from(['s', 's2', 'f', 'i', 't']).map(lambda v: ['var', v]),
                      key.map(lambda k: ['call', 'concat', [k, ['var', 's2']]]), key.map(lambda k: ['call', 'for-each', [path(['.']), ['quoted', k]]]))
    within = call('for-each', nodes, inner.filter(lambda e: no_quotes(e)).map(lambda e: ['quoted', e]))
    return gen.pick(c1, c1, c2, c1, c1, c2, within)


def no_quotes(e):
    '''The texts of a query within a query within a query cannot be written'''
    return not (e[1] == 'for-each' and e[2][1][1][0] == 'str')


def cases():
    values = xp.VALUES + ['aXbXc', '12345', '-0.5', '𝒳y']
    vs = st.fixed_dictionaries(dict(
        s=unicode_text(), s2=st.sampled_from(['', 'X', 'b', 'a', '1', '.', ' ', 'é', '𝒳', 'abc']),
        f=gen.pick(st.sampled_from(NUMBERS), st.floats(-1e6, 1e6), st.floats(0, 1).map(lambda x: round(x, 3)), st.integers(-50, 50).map(lambda i: i / 4)),
        i=gen.pick(st.integers(-3, 10), st.integers(-10**12, 10**12)), t=st.booleans()))
    return st.fixed_dictionaries(dict(tree=xp.xtrees(values=values, max_tokens=10), how=st.sampled_from(['parse', 'make']), at=st.integers(0, 30), vars=vs,
                                      style=gen.tapes(6), calls=st.lists(calls_strategy(), min_size=1, max_size=5)))


_calls = []


def calls_strategy():
    if not _calls:
        _calls.append(calls())
    return _calls[0]


def paired():
    '''Search functions on related texts'''
    piece = st.sampled_from(['a', 'b', 'ab', '𝒳', ' ', 'X', 'é', '1', '-', ''])
    text = st.lists(piece, max_size=6).map(''.join)
    part = st.lists(piece, max_size=2).map(''.join)
    name = st.sampled_from(['starts-with', 'contains', 'substring-before', 'substring-after', 'concat'])
    num = gen.pick(st.integers(-3, 8).map(float), st.integers(-12, 32).map(lambda i: i / 4), st.sampled_from(['NaN', 'Infinity', '-Infinity']))

    def make(t):
        n, s, p, a, b, three = t
        es = [['call', n, [['var', 's'], ['var', 's2']]],
              ['call', 'substring', [['var', 's'], ['var', 'f']] + ([['var', 'f2']] if three else [])]]
        return dict(tree=['a', [], []], how='make', at=0, vars=dict(s=s, s2=p, f=a, f2=b), style=[], calls=es)
    return st.tuples(name, text, part, num, num, st.booleans()).map(make)


def long():
    '''Long texts'''
    piece = st.sampled_from(['', ' ', 'x', 'é', '\U0001d4b3', '-', 'ab '])
    n = gen.pick(st.sampled_from(gen.SIZES), st.integers(200, 3000))
    name = st.sampled_from(['starts-with', 'contains', 'substring-before', 'substring-after', 'concat'])

    def make(t):
        n, p, name, at, m, off, last = t
        s = gen.counted(n, p) + last
        at = (n * at // 1000 if at < 1000 else n) + off
        part = s[max(0, at):max(0, at) + m]
        es = [['call', name, [['var', 's'], ['var', 's2']]], ['call', 'string-length', [['var', 's']]], ['call', 'substring', [['var', 's'], ['var', 'f'], ['var', 'f2']]],
              ['call', 'string', [['abs', '/', None]]], ['call', 'string-length', []], ['bin', '=', ['var', 's'], ['rel', [['', ['.']]]]], ['call', 'boolean', [['var', 's']]], ['call', 'number', [['var', 's']]]]
        return dict(tree=['a', [], [s[:n // 2], ['b', [], [s[n // 2:]]]] if off % 2 and n > 1 else [s]], how='make', at=1, vars=dict(s=s, s2=part, f=float(at), f2=float(m)), style=[], calls=es)
    return st.tuples(n, piece, name, st.integers(0, 1010), gen.pick(st.integers(0, 30), st.sampled_from([255, 256, 257, 1000, 4096])), st.integers(-3, 3), st.sampled_from(['', 'X', ' ', '\u0301'])).map(make)


def casts():
    '''Functions on texts which are numbers, or nearly'''
    text = xp.number_texts()
    name = st.sampled_from(['number', 'number', 'number', 'boolean', 'string', 'not', 'string-length'])
    arg = st.sampled_from([['var', 's'], ['var', 's2'], path(child('*')), path(child('b')), path(child('*'), ['step', 'attribute', 'k']), path(child('text()')), path(['.'])])

    def make(t):
        s, s2, a, b, k, calls = t
        es = [['call', n, [x]] for n, x in calls] + [['call', 'number', [['call', 'string', [['call', 'number', [['var', 's']]]]]]]]
        es += [['call', 'substring', [['str', 'abcdefgh'], x] + ([['var', 's2']] if i else [])] for i, (n, x) in enumerate(calls[:2])]
        tree = ['r', [], [['a', [['k', k]], [a] if a else []], ['b', [], [b] if b else []]]]
        return dict(tree=tree, how='parse', at=1, vars=dict(s=s, s2=s2, f=1.0, i=1, t=True), style=[], calls=es)
    return st.tuples(text, text, text, text, text, st.lists(st.tuples(name, arg), min_size=3, max_size=5)).map(make)


BUILT_IN = ['name', 'count', 'string', 'concat', 'starts-with', 'contains', 'substring-before', 'substring-after', 'substring', 'string-length', 'boolean', 'not', 'true', 'false',
            'number', 'for-each', 'lookup']
OWN_NAMES = ['f', 'F', 'my-count', '日本', '_x', 'a.b', 'nodes', 'texts', 'text-', 'item', 'count2', 'string-', 'strings', 'not-', 'name1', 'é', 'last', 'position', 'sum', 'id', 'a', 'b']


def renamed(e, m):
    if isinstance(e, (list, tuple)):
        if e and e[0] == 'call':
            return ['call', m[e[1]], [renamed(x, m) for x in e[2]]]
        if e and e[0] in ('str', 'step', 'num', 'var'):
            return e
        return [renamed(x, m) for x in e]
    return e


def check_own(case, rec):
    '''Functions of the user are called like those built in, everywhere: here those built in, by other names'''
    from amara3.uxml.uxpath import parse, context
    from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
    from .c17 import bind
    tree, top = build(case)
    real = xp.Real(top)
    rec.is_nontrivial = False
    names = case['names']
    wrong = []
    calls_made = []
    extras = dict(k='v') if case['extras'] else None

    def wrapped(f):
        def call(ctx, *args):
            calls_made.append(1)
            if ctx.functions is not funcs or ctx.extras != (extras or {}) or dict(ctx.variables) != variables or dict(ctx.lookuptables) != TABLES:
                wrong.append((ctx.functions is funcs, ctx.extras, dict(ctx.variables), ctx.lookuptables))
            yield from f(ctx, *args)
        return call
    with oracle():
        model = xp.Model(tree)
        nodes = starts(model)
        start = nodes[case['at'] % len(nodes)]
        vars_ref, variables = bind(case['vars'], model, real)
        funcs = {names[n]: wrapped(BUILTIN_FUNCTIONS[n]) for n in BUILT_IN}
        if case['keep']:
            funcs = dict(BUILTIN_FUNCTIONS, **funcs)
    for e in case['exprs']:
        with oracle():
            text = xp.render(renamed(e, names), xp.Style(case['style'], parens=False))
            try:
                expected = xp.Eval(model, vars_ref, TABLES).run(e, start)
            except (xp.TooBig, xp.Ambiguous) as ex:
                rec.label('skipped: ' + str(ex))
                continue
            del calls_made[:]
        ctx = real_context(real, start, dict(variables), TABLES, funcs, extras)
        got = real.items(parse(text).compute(ctx), expected)
        if not xp.same_items(got, expected):
            fail('{} from {} of {} with {} and functions {}:\n  got      {}\n  expected {}', text, start, short(tree), vars_ref, {names[n]: n for n in names}, short(got), short(expected))
        if wrong:
            fail('{} from {} of {}: functions are called with other (functions, extras, variables, tables) than those given: {}', text, start, short(tree), short(wrong[0]))
        if calls_made:
            rec.is_nontrivial = True
            rec.label('own functions called ' + ('once' if len(calls_made) == 1 else 'often'))


def own():
    g = xp.Gen(tables=True)
    with_call = gen.pick(g.any, g.vals, st.tuples(st.just('pred'), g.nodes0, st.lists(g.calls(g.any, g.nodes0, 0, True, True, True), min_size=1, max_size=2)),
                         g.calls(gen.pick(g.any, g.calls(g.any, g.nodes0, 0, True, True, True)), g.nodes0, 0, True, True, True)).map(xp.listed)
    names = gen.pick(st.permutations(BUILT_IN), st.permutations(BUILT_IN + OWN_NAMES)).map(lambda p: dict(zip(BUILT_IN, p)))
    from .c17 import variables
    return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=12), how=st.sampled_from(['parse', 'make']), at=st.integers(0, 30), vars=variables(), style=gen.tapes(6), names=names,
                                      keep=st.booleans(), extras=st.booleans(), exprs=st.lists(with_call, min_size=1, max_size=4)))


SUBS = [
    Sub('calls', xp.respelled(cases, 'calls'), check, 9000, 250000),
    Sub('paired', paired, check, 4000, 100000),
    Sub('long', long, check, 600, 15000),
    Sub('casts', casts, check, 2000, 60000),
    Sub('own', own, check_own, 1500, 40000),
]
