'''A serialised XPath expression means the same as the original'''
from hypothesis import strategies as st

from vlib import gen, sut, xp
from vlib.harness import Sub, oracle, same, fail, short
from . import c19
from .c16 import real_context
from .c17 import variables

RULE = ('Random expressions of the grammar, in random spelling, and random sequences of tokens of which the parser accepts some; serialised, parsed and serialised '
        'again, and evaluated in both forms on random trees from random nodes with random variables. Non-trivial: the expression has an operator, predicate, '
        'function call, sequence, or more than one step, and the serialisation can be compared by results other than an exception.')
ASSUMPTIONS = ['Literals do not contain both kinds of quotes, as no expression can have these']


def parts(x, seen=None):
    '''All objects of the expression'''
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        for i in x:
            yield from parts(i, seen)
    elif type(x).__module__.startswith('amara3.'):
        yield x
        for v in vars(x).values():
            yield from parts(v, seen)


def run(expr, real, start, vs):
    ctx = real_context(real, start, c19.bind(vs, real, ()))
    return c19.take(iter(expr.compute(ctx)), 200, real)[0]


def round_trip(text, expr):
    from amara3.uxml.uxpath import parse
    from amara3.uxml.uxpath.xast import serialize
    for p in parts(expr):
        if not isinstance(repr(p), str):
            fail('repr gives no text')
    s = serialize(expr)
    if not isinstance(s, str):
        fail('{}: serialised as {!r}', short(repr(text)), s)
    try:
        again = parse(s)
    except Exception as e:
        fail('{}: serialisation {!r} can not be parsed: {}: {}', short(repr(text)), short(s), type(e).__name__, e)
    same('{!r}: serialisation of what was parsed from serialisation'.format(short(text)), serialize(again), s)
    same('{!r}: serialised once more'.format(short(text)), serialize(expr), s)
    for p in parts(again):
        repr(p)
    return s, again


def compare(text, expr, s, again, case, rec):
    meaningful = False
    top = sut.make(case['tree'])
    real = xp.Real(top)
    with oracle():
        nodes = list(xp.Model(case['tree']).order)
    for at in case['at']:
        start = nodes[at % len(nodes)]
        a = run(expr, real, start, case['vars'])
        b = run(again, real, start, case['vars'])
        if a != b:
            fail('{!r}, serialised as {!r}, from {} of {} gives:\n  {}\n  instead of {}', text, s, start, short(case['tree']), short(b), short(a))
        meaningful = meaningful or bool(a and a[-1][0] != 'raises')
    rec.label('gives results' if meaningful else 'gives no results')
    return meaningful


def check(case, rec):
    from amara3.uxml.uxpath import parse
    rec.is_nontrivial = False
    for e in case['exprs']:
        with oracle():
            text = xp.render(e, xp.Style(case['style'], parens=case['parens']))
            kinds = xp.count_kinds(e)
            try:
                m = xp.Model(case['tree'])
                xp.Eval(m, dict(case['vars'], n=('n', ()), f=float(case['vars']['f']), i=float(case['vars']['i']))).run(e, ('n', ()))
            except xp.TooBig:
                continue
            except xp.Ambiguous:
                pass
            rec.label(*kinds)
        expr = parse(text)
        s, again = round_trip(text, expr)
        if compare(text, expr, s, again, case, rec):
            if len(kinds) > 1:
                rec.is_nontrivial = True


TOKENS = ['a', 'b', '*', '@', '@k', '/', '//', '.', '..', '(', ')', '[', ']', ',', '|', '=', '!=', '<', '<=', '>', '>=', '+', '-', 'and', 'or', 'div', 'mod', '$s', '$n', '$', '"x"', "'y'", "''",
          '"\'"', "'\"'", '1', '2', '1.5', '.5', '2.', '0', 'child::', 'self::', 'parent::', 'ancestor::', 'descendant::', 'following-sibling::', 'preceding::', 'attribute::', 'node()',
          'text()', 'count(', 'string(', 'concat(', 'not(', 'true()', 'position()', 'last()', 'name()', '123456789012345678901234567890', '0.000001', '100000000000000000000000.5',
          '0.00000000000000000000001', ' ', '\n', '::', 'é', 'a-b', 'a.b', 'text', 'node', 'child', 'for-each(', '"b"', '[1]', '[@k]', '/text()', 'boolean(', 'descendant-or-self::', 'id']


def check_tokens(case, rec):
    from amara3.uxml.uxpath import parse
    rec.is_nontrivial = False
    text = ''.join(case['tokens'])
    try:
        expr = parse(text)
    except Exception:
        rec.label('not accepted')
        return
    if expr is None:
        return
    rec.label('accepted')
    s, again = round_trip(text, expr)
    if compare(text, expr, s, again, case, rec) and len(case['tokens']) > 1:
        rec.is_nontrivial = True


def cases(depth, n):
    def f():
        g = xp.Gen(values=xp.VALUES + ["it's", '"', "'", 'say "x"', "''", '&lt;', '\n', '(', ']'], depth=depth)
        expr = gen.pick(g.any, g.nodes, g.vals, g.abs).map(xp.listed)
        return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=12), at=st.lists(st.integers(0, 20), min_size=1, max_size=3), vars=variables(),
                                          style=gen.tapes(20), parens=st.booleans(), exprs=st.lists(expr, min_size=1, max_size=n)))
    return f


def token_lists():
    # Nearly right: a rendered expression, with some tokens put in
    g = xp.Gen(depth=1)
    edited = st.tuples(gen.pick(g.any, g.nodes).map(lambda e: xp.tokens(xp.listed(e), xp.Style())), st.lists(st.tuples(st.integers(0, 30), st.sampled_from(TOKENS), st.booleans()), max_size=3)).map(edit)
    operators = st.sampled_from([t for t in TOKENS if t in ('|', '=', '!=', '<', '>=', '+', '-', ' and ', ' or ', '*', '/', '//', ',') or t in ('and', 'or', 'div', 'mod')])
    operand = gen.pick(st.sampled_from(['a', '@k', '.', '..', '1', '"x"', '$s', 'a[1]', '(a)', '-1', 'text()', 'count(a)', '*', '/', '/a', '//b', '(1,2)', '-a', '--1', '()', 'b[.="1"]']), st.sampled_from(['a', '1', '.']))
    chain = st.lists(st.tuples(operand, operators), min_size=1, max_size=4).map(lambda ps: sum([[a, ' ' + o + ' '] for a, o in ps], [])[:-1])
    chain2 = st.tuples(chain, operators, chain).map(lambda t: ['('] + t[0] + [')', ' ' + t[1] + ' '] + t[2])
    return st.fixed_dictionaries(dict(
        tokens=gen.pick(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=7), edited, edited, chain, chain2).map(list),
        tree=xp.xtrees(max_tokens=7), at=st.lists(st.integers(0, 20), min_size=1, max_size=2), vars=variables()))


def edit(t):
    toks, edits = t
    out = []
    for i, x in enumerate(toks):
        out.append((' ' if i and xp.glue(toks[i - 1], x) else '') + x)
    for pos, tok, insert in edits:
        pos %= len(out) + 1
        out[pos:pos + (0 if insert else 1)] = [tok]
    return out[:14]


SUBS = [
    Sub('expressions', xp.respelled(cases(2, 4)), check, 3000, 80000),
    Sub('deep', xp.respelled(cases(3, 1)), check, 1500, 50000),
    Sub('tokens', token_lists, check_tokens, 6000, 150000),
]
