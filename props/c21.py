'''All ways to run an XPath query agree'''
from hypothesis import strategies as st

from vlib import gen, sut, xp
from vlib.harness import Sub, Violation, oracle, fail, short
from . import c19
from .c16 import real_context

RULE = ('Random documents as text, bytes and tree, random expressions, variables, functions and inner elements; each result of each entry point is mapped to its place in its own tree and '
        'all are compared with each other and, where it decides, with the reference evaluator. Non-trivial: there are results, which are from an inner element or not all values.')
ASSUMPTIONS = ['Results are looked at while the query is running, as nothing else keeps the tree of a query on text alive']

WAYS_TOP = ['qquery text', 'qquery bytes', 'qquery tree', 'qquery text parsed', 'qquery bytes parsed', 'qquery tree parsed', 'xml_xpath', 'xml_xpath parsed', 'compute', 'call']
WAYS_INNER = ['qquery tree', 'qquery tree parsed', 'xml_xpath', 'xml_xpath parsed', 'compute', 'call']
MAX = 300


class Late:
    '''Tree known only from the first node among the results'''
    def __init__(self):
        self.real = None

    def item(self, x):
        from amara3.uxml.tree import node, element
        if not isinstance(x, node) or isinstance(x, str) and x.xml_parent is None:
            return xp.Real.item(self, x)
        if self.real is None:
            top = x
            while top.xml_parent is not None:
                top = top.xml_parent
            if not isinstance(top, element):
                top = list(top.xml_children)[0]
            self.real = xp.Real(top)
            self.top = top
        return self.real.item(x)

    path_of = {}


def start_query(way, text, doc, node, vs, funcs):
    from amara3.uxml.uxpath import qquery, parse, context
    expr = parse(text) if way not in ('qquery text', 'qquery bytes', 'qquery tree', 'xml_xpath') else text
    if way.startswith('qquery text'):
        return qquery(doc, expr, vars=vs, funcs=funcs)
    if way.startswith('qquery bytes'):
        return qquery(doc.encode('utf-8'), expr, vars=vs, funcs=funcs)
    if way.startswith('qquery tree'):
        return qquery(node, expr, vars=vs, funcs=funcs)
    if way.startswith('xml_xpath'):
        return node.xml_xpath(expr, vars=vs, funcs=funcs)
    ctx = context(node, variables=vs, functions=funcs) if node.xml_parent is None else context(node, variables=vs, functions=funcs, force_root=False)
    return expr(ctx) if way == 'call' else expr.compute(ctx)


def hello(ctx, *args):
    '''A function of the user'''
    yield 'hello'


def last_item(ctx, arg):
    yield from list(arg.compute(ctx))[-1:]


def check(case, rec):
    from amara3.uxml import tree as T
    from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
    rec.is_nontrivial = False
    with oracle():
        tree = gen.normal(case['tree'])
        doc = gen.render(tree, case['layout'])
        model = xp.Model(tree)
        elems = [n for n in model.order if n[0] == 'n' and model.kind(n) == 'element']
        ref = elems[case['at'] % len(elems)]
        inner = ref != ('n', ())
        vs = dict(case['vars'], f=float(case['vars']['f']))
        rvs = dict(vs, i=float(vs['i']))
    top = T.parse(doc)
    if sut.dump(top) != tree:
        fail('{!r} is parsed as {}', doc, short(sut.dump(top)))
    real = xp.Real(top)
    node = real.nodes[ref[1]]
    for e in case['exprs']:
        with oracle():
            funcs = None
            text = xp.render(e, xp.Style(case['layout']))
            expected = None
            try:
                expected = xp.Eval(model, rvs).run(e, ref if inner else ('r',))
            except xp.TooBig:
                continue
            except xp.Ambiguous:
                pass
            if case['user']:
                funcs = dict(BUILTIN_FUNCTIONS, hello=hello)
                funcs['last-item'] = last_item
                text = {1: '(hello(), {})', 2: 'last-item(({}))', 3: '({}, hello(1))', 4: '$nope', 5: '({}, $nope)', 6: '({}, nope())', 7: 'hello($nope)', 8: 'nope({})', 9: 'count($nope)', 10: '$i[$nope]', 11: '$nope/a'}[case['user']].format(text)
                expected = None
        outcomes = {}
        for way in WAYS_INNER if inner else WAYS_TOP:
            r = Late() if way.startswith(('qquery text', 'qquery bytes')) else real
            v = case['vars_as'] and dict(vs) or vs
            out, more = c19.take(start_query(way, text, doc, node, v, funcs), MAX, r)
            if more:
                out.append(['more'])
            outcomes[way] = out
            if v != vs:
                fail('{} by {} changes the variables', text, way)
        base = outcomes['compute']
        for way, out in outcomes.items():
            if out != base:
                fail('{} from {} of {}:\n  by {}: {}\n  by context and compute: {}', text, ref[1] if inner else 'top', doc, way, short(out), short(base))
        if expected is not None:
            with oracle():
                want = [show(x) for x in expected]
                if base[-1:] == [['more']]:
                    want = want[:MAX] + [['more']]
            if base != want:
                fail('{} from {} of {}: got {}, expected {}', text, ref[1] if inner else 'top', doc, short(base), short(want))
        if base and base[-1][0] == 'raises':
            rec.label('raises ' + base[-1][1])
        if base and base[0][0] != 'raises':
            rec.label('inner' if inner else 'top', 'node results' if any(x[0] == 'node' for x in base) else 'value results')
            if case['user']:
                rec.label('own functions')
            if inner or any(x[0] == 'node' for x in base):
                rec.is_nontrivial = True
    if sut.dump(top) != tree:
        fail('the tree became {}', short(sut.dump(top)))


def show(v):
    if isinstance(v, tuple):
        return ['node'] + [list(i) if isinstance(i, tuple) else i for i in v]
    if isinstance(v, float):
        return ['float', repr(v + 0.0)]
    return [type(v).__name__, v]


ODD = ['x', '1', '\u2028', 'a\u2029b', '\xa0', '\ufeff', '\ufeffx', 'Ã©', 'Â', '\u200b', '\ufdf0', 'ÿ', '😀', '\ue000', '€', 'ﬁ', 'e\u0301', '\n', '\t', '\ufffd', 'x\n\ny']


def cases(depth, user):
    def f():
        g = xp.Gen(depth=depth, node_vars=(), values=xp.VALUES + ['<', '&', 'Ж', '𝒳', "it's"])
        expr = gen.pick(g.any, g.nodes, g.rel, g.abs).map(xp.listed)
        variables = st.fixed_dictionaries(dict(s=st.sampled_from(xp.VALUES), i=st.integers(-1, 4), f=st.sampled_from([0.0, 1.5, 2.0, 'NaN']), t=st.booleans()))
        return st.fixed_dictionaries(dict(tree=gen.pick(xp.xtrees(max_tokens=14, values=xp.VALUES + ['<', '&', 'Ж', '𝒳', "it's"]), xp.xtrees(max_tokens=8, names=['a', 'b', 'é', 'Ж'], values=ODD)), layout=gen.tapes(16), at=st.sampled_from([0, 0, 1, 2, 3, 4, 7]), vars=variables, vars_as=st.booleans(),
                                          user=st.sampled_from([0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11]) if user else st.just(0), exprs=st.lists(expr, min_size=1, max_size=3)))
    return f


SUBS = [
    Sub('entry points', xp.respelled(cases(1, True)), check, 3500, 80000),
    Sub('deep', xp.respelled(cases(2, False)), check, 1500, 50000),
]
