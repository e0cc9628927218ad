'''Equivalent XPath spellings give equal results'''
import json
import re

from hypothesis import strategies as st

from vlib import gen, sut, xp, xpgrammar
from vlib.harness import Sub, oracle, fail, short
from . import c19, c20
from .c16 import real_context
from .c17 import variables

RULE = ('Random expressions rendered plainly, with random white space, quotes, number spelling, abbreviations and parentheses, and fully parenthesised, evaluated side by side on '
        'random trees; // against descendant-or-self::node(), as sets; expressions and trees with all names (elements, attributes, variables, functions) renamed to random names, among them '
        'those of operators, axes and node tests; random and edited token sequences and texts against a recogniser of the grammar. Non-trivial: the spellings differ and have a '
        'result, or the text is rejected though all its tokens are good.')
ASSUMPTIONS = ['E//x and E/descendant-or-self::node()/x may differ in the order of nodes, as this implementation uses E/descendant::x',
               'Extensions (sequences, predicates and paths on any expression) and multiplication may be rejected or not']

G = xp.Gen(values=xp.VALUES + ["it's", '"', 'a  b', '(', ' or ', '//', '1 '])
FULL = dict(tape=[6], spell=False, space=False)


def results(text, top, real, start, vs, functions=None):
    from amara3.uxml.uxpath import parse
    ctx = real_context(real, start, vs)
    if functions:
        ctx = ctx.copy(functions=functions)
    return c19.take(iter(parse(text).compute(ctx)), 400, real)[0]


def small_enough(e, model, vs):
    try:
        xp.Eval(model, dict(vs, n=('n', ()), f=float(vs['f']), i=float(vs['i']))).run(e, ('n', ()))
    except xp.TooBig:
        return False
    except xp.Ambiguous:
        pass
    return True


def proper(out):
    return bool(out) and out[-1][0] != 'raises'


def check_spelling(case, rec):
    rec.is_nontrivial = False
    top = sut.make(case['tree'])
    real = xp.Real(top)
    vs = c19.bind(case['vars'], real, ())
    with oracle():
        model = xp.Model(case['tree'])
        nodes = list(model.order)
        start = nodes[case['at'] % len(nodes)]
    for e in case['exprs']:
        with oracle():
            if not small_enough(e, model, case['vars']):
                continue
            plain = xp.render(e, xp.Style())
            others = {xp.render(e, xp.Style(case['style'])), xp.render(e, xp.Style(**FULL)), xp.render(e, xp.Style(case['style'][::-1], parens=False))} - {plain}
            rec.label(*xp.count_kinds(e))
        a = results(plain, top, real, start, vs)
        for o in sorted(others):
            b = results(o, top, real, start, vs)
            if a != b:
                fail('from {} of {}:\n  {} gives {}\n  {} gives {}', start, short(case['tree']), plain, short(a), o, short(b))
        if others and proper(a):
            rec.is_nontrivial = True


def full_slashes(e):
    '''Without //'''
    dos = ['/', ['step', 'descendant-or-self', 'node()']]

    def steps(ss):
        out = []
        for sep, s in ss:
            if sep == '//':
                out += [dos, ['/', s]]
            else:
                out.append([sep, s])
        return out
    if e[0] == 'rel':
        return ['rel', steps(e[1])]
    if e[0] == 'abs' and e[2]:
        ss = steps(e[2][1])
        if e[1] == '//':
            ss = [['', dos[1]], ['/', ss[0][1]]] + ss[1:]
        return ['abs', '/', ['rel', ss]]
    return e


def check_slashes(case, rec):
    rec.is_nontrivial = False
    top = sut.make(case['tree'])
    real = xp.Real(top)
    with oracle():
        model = xp.Model(case['tree'])
        nodes = list(model.order)
        start = nodes[case['at'] % len(nodes)]
    for e in case['exprs']:
        with oracle():
            f = full_slashes(e)
            if f == e or not small_enough(f, model, dict(f=0, i=0)):
                continue
            one, other = xp.render(e, xp.Style()), xp.render(f, xp.Style())
        a, b = (sorted(set(map(json.dumps, results(t, top, real, start, {})))) for t in (one, other))
        if a != b:
            fail('from {} of {}:\n  {} selects {}\n  {} selects {}', start, short(case['tree']), one, short(a), other, short(b))
        if len(a) > 1:
            rec.is_nontrivial = True


def rename(e, names):
    if not isinstance(e, list) or not e:
        return e
    if e[0] == 'step':
        kind = 'attrs' if e[1] == 'attribute' else 'elems'
        return [e[0], e[1], names[kind].get(e[2], e[2])]
    if e[0] == 'var':
        return ['var', names['vars'][e[1]]]
    if e[0] == 'call':
        return ['call', names['funcs'].get(e[1], e[1]), rename(e[2], names)]
    if e[0] in ('str', 'num'):
        return e
    return [rename(x, names) for x in e]


def rename_tree(t, names):
    if isinstance(t, str):
        return t
    return [names['elems'].get(t[0], t[0]), [[names['attrs'].get(k, k), v] for k, v in t[1]], [rename_tree(c, names) for c in t[2]]]


def without_name(e):
    '''name() tells the name, so is replaced'''
    if not isinstance(e, list) or not e or e[0] in ('str', 'num'):
        return e
    if e[0] == 'call' and e[1] == 'name':
        return ['call', 'string', without_name(e[2])]
    return [without_name(x) for x in e]


def check_rename(case, rec):
    from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
    rec.is_nontrivial = False
    vs = case['vars']
    with oracle():
        names = dict(elems=dict(zip(xp.NAMES, case['elems'])), attrs=dict(zip(xp.ATTRS, case['attrs'])), vars=dict(zip(['n', 's', 'i', 'f', 't'], case['variables'])),
                     funcs=dict(zip(FUNCS, case['funcs'])))
        model = xp.Model(case['tree'])
        nodes = list(model.order)
        start = nodes[case['at'] % len(nodes)]
        tree2 = rename_tree(case['tree'], names)
        start2 = start[:2] + (names['attrs'][start[2]],) if start[0] == 'a' else start
    top, top2 = sut.make(case['tree']), sut.make(tree2)
    real, real2 = xp.Real(top), xp.Real(top2)
    bound = c19.bind(vs, real, ())
    bound2 = {names['vars'][k]: v for k, v in c19.bind(vs, real2, ()).items()}
    functions = {names['funcs'].get(k, k): v for k, v in BUILTIN_FUNCTIONS.items() if k in names['funcs'] or k not in case['funcs']}
    for e in case['exprs']:
        with oracle():
            e = without_name(e)
            if not small_enough(e, model, vs):
                continue
            one = xp.render(e, xp.Style(case['style']))
            other = xp.render(rename(e, names), xp.Style(case['style']))
        a = results(one, top, real, start, bound)
        b = results(other, top2, real2, start2, bound2, functions)
        with oracle():
            want = [x[:3] + [names['attrs'][x[3]]] if x[0] == 'node' and x[1] == 'a' else x for x in a]
        if b != want:
            fail('from {}:\n  {} on {} gives {}\n  {} on {} gives {}', start, one, short(case['tree']), short(a), other, short(tree2), short(b))
        if proper(a) and one != other:
            rec.is_nontrivial = True
            for n in case['elems'] + case['attrs'] + case['variables'] + case['funcs']:
                rec.label('name {}'.format('Unicode' if not n.isascii() else n if n in KEYWORDS else 'other'))


def check_reject(case, rec):
    from amara3.uxml.uxpath import parse
    rec.is_nontrivial = False
    for text in case['texts']:
        text = ''.join(text)
        with oracle():
            verdict = xpgrammar.judge(text)
        try:
            expr = parse(text)
        except Exception as e:
            rec.label('rejected')
            if verdict == 'accept':
                fail('{!r} is rejected: {}: {}', text, type(e).__name__, e)
            if verdict == 'reject':
                with oracle():
                    try:
                        if len(xpgrammar.tokenize(text)) > 1:
                            rec.is_nontrivial = True
                            rec.label('rejected with good tokens')
                    except xpgrammar.No:
                        rec.label('rejected with bad characters')
            continue
        rec.label('accepted')
        if verdict == 'reject':
            from amara3.uxml.uxpath.xast import serialize
            fail('{!r} is not an expression, but taken for {!r}', text, serialize(expr))


KEYWORDS = ['or', 'and', 'div', 'mod', 'text', 'node', 'child', 'self', 'parent', 'ancestor', 'attribute', 'descendant', 'following', 'preceding', 'ancestor-or-self', 'a', 'b', 'c', 'k', 'name', 'count',
            'true', 'string', 'not', 'comment', 'x-y', 'x.y', '_', 'position', 'last', 'namespace', 'following-sibling', 'a-', 'a.', 'A', 'in', 'if', 'eq', 'to']
FUNCS = ['count', 'not', 'boolean', 'string', 'number', 'string-length', 'concat', 'starts-with', 'contains', 'substring', 'true', 'false', 'for-each']


def new_names(n, but=()):
    name = gen.pick(st.sampled_from(KEYWORDS), st.sampled_from(KEYWORDS[:9]), gen.names()).filter(lambda x: x not in but)
    return st.lists(name, min_size=n, max_size=n, unique=True)


def expr_cases(g, n):
    def f():
        expr = gen.pick(g.any, g.nodes, g.vals, g.abs).map(xp.listed)
        return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=12), at=st.integers(0, 20), vars=variables(),
                                          style=st.lists(st.integers(0, 40), min_size=1, max_size=30), exprs=st.lists(expr, min_size=1, max_size=n)))
    return f


def slash_cases():
    g = xp.Gen(depth=0)
    expr = gen.pick(g.rel, g.abs).map(xp.listed).filter(lambda e: '"//"' in json.dumps(e))
    return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=14), at=st.integers(0, 20), exprs=st.lists(expr, min_size=1, max_size=4)))


def rename_cases():
    g = xp.Gen(depth=2)
    expr = gen.pick(g.any, g.nodes, g.nodes0, g.abs, g.layers[1][0]).map(xp.listed)
    return st.fixed_dictionaries(dict(tree=xp.xtrees(max_tokens=12), at=st.integers(0, 20), vars=variables(), style=gen.tapes(12),
                                      elems=new_names(3), attrs=new_names(3), variables=new_names(5), funcs=new_names(len(FUNCS), ('text', 'node')),
                                      exprs=st.lists(expr, min_size=1, max_size=4)))


def reject_cases():
    g = xp.Gen(depth=1)
    chars = st.sampled_from(list('/@.:*()[]|=!<>+-,$"\' \n\t0123a_é') + ['\u00a0', '\u0663', '\u200b', '#', '&', ';', '{', '}', '%', '~', '`', '^', '?', '\\', '\x00', '\x0b', '\x0c', '\u00b7', '\u2003', '\ufeff', '\u00d7', '٣'])

    def edit(t):
        text, edits = t
        text = list(text)
        for pos, c, what in edits:
            pos %= len(text) + 1
            if what == 0:
                text[pos:pos] = [c]
            elif what == 1:
                text[pos:pos + 1] = [c]
            else:
                del text[pos:pos + 1]
        return text
    def shout(t):
        text, i, change = t
        words = list(re.finditer('[a-z][a-z-]*', text))
        if not words:
            return [text]
        w = words[i % len(words)]
        return [text[:w.start()], change(w.group()), text[w.end():]]
    styled = st.tuples(gen.pick(g.any, g.nodes), gen.tapes(12)).map(lambda t: xp.render(xp.listed(t[0]), xp.Style(t[1])))
    edited = st.tuples(styled, st.lists(st.tuples(st.integers(0, 60), chars, st.integers(0, 2)), min_size=1, max_size=2)).map(edit)
    shouted = st.tuples(styled, st.integers(0, 9), st.sampled_from([str.upper, str.title, str.swapcase])).map(shout)
    tokens = c20.token_lists().map(lambda c: c['tokens'])
    loose = st.lists(st.sampled_from(c20.TOKENS + ['*', '$', '@', '::', 'or', '/']), min_size=1, max_size=6)
    return st.fixed_dictionaries(dict(texts=st.lists(gen.pick(edited, edited, shouted, tokens, tokens, loose), min_size=1, max_size=6)))


SUBS = [
    Sub('spelling', expr_cases(G, 3), check_spelling, 3000, 80000),
    Sub('slashes', slash_cases, check_slashes, 2500, 60000),
    Sub('rename', rename_cases, check_rename, 3000, 80000),
    Sub('reject', reject_cases, check_reject, 4000, 100000),
]
