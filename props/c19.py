'''XPath evaluation has no side effects and no memory'''
import re

from hypothesis import strategies as st

from vlib import gen, sut, xp, fresh, mutate
from vlib.harness import Sub, oracle, Violation, same, fail, short
from .c16 import real_context

RULE = ('Histories on up to four trees and a set of random expressions (compiled ones are used again and again), with contexts used again, by all entry points: '
        'parse valid and broken expressions, evaluate to the end or only partly, go on with evaluations begun earlier, edit and restructure the trees (also joining, '
        'splitting and wrapping them). Each outcome is compared with that of a newly parsed expression on a new copy of the tree in a process where nothing was '
        'done before; trees, contexts and serialised expressions must stay as they were. Non-trivial: an evaluation gives something after another evaluation and an edit or a broken expression.')
ASSUMPTIONS = ['An evaluation is not continued after an edit of its tree; a context is used as long as its tree has the same top element']

LIMIT = 60


def show(real, x):
    try:
        v = real.item(x)
    except Violation as e:
        return ['not in tree', type(x).__name__]
    if isinstance(v, tuple):
        return ['node'] + [list(i) if isinstance(i, tuple) else i for i in v]
    if isinstance(v, float):
        return ['float', repr(v + 0.0)]     # -0 is 0
    return [type(v).__name__, v]


FUNCTIONS = [None, None,
             dict(count=lambda ctx, *a: iter([7.0]), string=lambda ctx, *a: iter(['own']), name=lambda ctx, *a: iter(['b'])),
             dict(boolean=lambda ctx, *a: iter([True]), concat=lambda ctx, *a: iter([len(a) + 0.0]), contains=lambda ctx, *a: iter([False]), last=lambda ctx, *a: iter([1.0])),
             {'not': lambda ctx, *a: iter([False]), 'true': lambda ctx: iter([False]), 'number': lambda ctx, *a: iter([2.0]), 'for-each': lambda ctx, *a: iter(['each'])},
             dict(count=None, concat=None, name=None, string=None)]
TABLES = [None, None, dict(t={'a': 'A', '1': 'one', '': 'nothing', 'x': 'X'}), dict(t={'a': 'B', 'b': 'b', '2': 'two'}, a={'a': '1'})]


def functions_of(k):
    '''Functions of the user: some of them instead of built-in ones, or without some'''
    from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
    own = FUNCTIONS[k % len(FUNCTIONS)]
    if own is None:
        return None
    return {k: v for k, v in dict(BUILTIN_FUNCTIONS, **own).items() if v is not None}


def begin(entry, expr, text, ctx, start, real, variables, funcs):
    '''Iterator over the results'''
    from amara3.uxml.uxpath import qquery
    if entry == 'compute':
        return iter(expr.compute(ctx))
    if entry == 'call':
        return iter(expr(ctx))
    node = real.top if start[0] == 'r' else real.nodes[tuple(start[1])]
    what = text if entry.endswith('text') else expr
    if entry.startswith('xml_xpath'):
        return iter(node.xml_xpath(what, vars=variables, funcs=funcs))
    return iter(qquery(node, what, vars=variables, funcs=funcs))


def bind(vs, real, path):
    return dict(vs, n=real.nodes[tuple(path)], f=float(vs['f']))


def take(it, n, real):
    '''JSON results, whether there may be more'''
    out = []
    try:
        for x in it:
            out.append(show(real, x))
            if len(out) >= n:
                return out, True
    except Exception as e:
        out.append(['raises', type(e).__name__])
    return out, False


def as_start(s):
    return tuple(tuple(x) if isinstance(x, list) else x for x in s)


def fresh_run(r):
    from amara3.uxml.uxpath import parse
    try:
        expr = parse(r['text'])
    except Exception as e:
        return [['parse raises', type(e).__name__]]
    top = sut.make(r['tree'])
    real = xp.Real(top)
    start = as_start(r['start'])
    variables = bind(r['vars'], real, r['n'])
    funcs = functions_of(r['funcs'])
    ctx = real_context(real, start, variables, TABLES[r['tables']], funcs)
    return take(begin(r['entry'], expr, r['text'], ctx, start, real, variables, funcs), LIMIT, real)[0]


server = fresh.Server(fresh_run)


class History:
    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.tops = []
        self.version = []
        self.compiled = {}
        self.contexts = []
        self.running = []
        self.evaluated = self.disturbed = False
        for t in case['trees']:
            self.add(sut.make(t))

    def add(self, top):
        self.tops.append(top)
        self.version.append(0)

    def changed(self, i):
        self.version[i] += 1
        self.running = [r for r in self.running if r['i'] != i]
        self.disturbed = self.disturbed or self.evaluated

    def run(self):
        for op in self.case['ops']:
            getattr(self, 'op_' + op[0])(*op[1:])

    # Expressions

    def expression(self, text, again):
        from amara3.uxml.uxpath import parse
        if again or text not in self.compiled:
            self.compiled[text] = parse(text)
        return self.compiled[text]

    def op_broken(self, text):
        from amara3.uxml.uxpath import parse
        try:
            parse(text)
        except Exception:
            self.rec.label('broken expression')
            self.disturbed = self.disturbed or self.evaluated

    def op_eval(self, ti, at, ei, entry, n, again, reuse, env):
        from amara3.uxml.uxpath.xast import serialize
        i = ti % len(self.tops)
        vs = self.case['vars'][env[0] % len(self.case['vars'])]
        fi, tab = env[1] % len(FUNCTIONS), env[2] % len(TABLES)
        funcs = functions_of(fi)
        text = self.case['exprs'][ei % len(self.case['exprs'])]
        top = self.tops[i]
        before = sut.dump(top)
        real = xp.Real(top)
        with oracle():
            model = xp.Model(before)
            nodes = list(model.order)
            start = nodes[at % len(nodes)]
            elems = [r for r in nodes if r[0] == 'n' and model.kind(r) == 'element']
            path = elems[vs['n'] % len(elems)][1]
            if entry not in ('compute', 'call') and start[0] == 'a':
                start = ('r',)
        try:
            expr = self.expression(text, again)
            fault = None
        except Exception as e:
            fault = type(e).__name__
        if fault is None:
            serial = serialize(expr)
            ctx = variables = None
            if entry in ('compute', 'call'):
                usable = [c for c in self.contexts if c['top'] is top and self.under(c['item'], top) and self.under(c['n'], top)]
                if usable and reuse:
                    c = usable[reuse % len(usable)]
                    ctx, start, path, vs, fi, tab = c['ctx'], self.ref(c, real), real.path_of[id(c['n'])], c['vs'], c['funcs'], c['tables']
                    self.rec.label('context used again')
                else:
                    variables = bind(vs, real, path)
                    ctx = real_context(real, start, variables, TABLES[tab], funcs)
                    if start[0] != 'a':
                        self.contexts.append(dict(ctx=ctx, top=top, item=ctx.item, n=variables['n'], vs=vs, funcs=fi, tables=tab))
                facts = self.facts(ctx)
            else:
                variables = bind(vs, real, path)
            given = self.given(variables)
            it = begin(entry, expr, text, ctx, start, real, variables, funcs)
            got, more = take(it, n, real)
        else:
            got, more = [['parse raises', fault]], False
        with oracle():
            status, expected = server.ask(dict(text=text, tree=before, start=start, vars=vs, n=path, entry=entry, funcs=fi, tables=tab))
            if status != 'ok':
                self.rec.label('fresh run: ' + status)
                return
        where = '{} by {} from {} of {} with variables {} and functions {}'.format(text, entry, start, short(before), vs, fi)
        same(where + ', after ' + self.story(), got, expected[:len(got)] if more else expected)
        if fault is None:
            same('tree after ' + where, sut.dump(top), before)
            same('expression after ' + where, serialize(expr), serial)
            if ctx is not None:
                same('context after ' + where, self.facts(ctx), facts)
            same('variables after ' + where, self.given(variables), given)
            if more and len(got) < LIMIT:
                self.running.append(dict(i=i, it=it, got=got, expected=expected, real=real, where=where, before=before))
        self.rec.label('by ' + entry, 'partly' if more else 'complete', 'results ' + ('0' if not got else '1+'))
        if got and self.disturbed:
            self.rec.is_nontrivial = True
            self.rec.label('after a disturbance')
        self.evaluated = True

    def story(self):
        return short(repr(self.case['ops']), 300)

    @staticmethod
    def under(n, top):
        '''Whether the node, or root node, is of the tree'''
        from amara3.uxml.tree import element
        if not isinstance(n, (element, str)):
            return True     # Root node
        while n.xml_parent is not None:
            n = n.xml_parent
        return n is top

    def ref(self, c, real):
        return ('n', real.path_of[id(c['item'])]) if id(c['item']) in real.path_of else ('r',)

    @staticmethod
    def given(variables):
        return variables and [(k, repr(v) if isinstance(v, float) else id(v) if not isinstance(v, (str, int)) else v) for k, v in sorted(variables.items())]

    def facts(self, ctx):
        return dict(item=id(ctx.item), pos=ctx.pos, variables=[(k, repr(v) if isinstance(v, float) else id(v) if not isinstance(v, (str, int)) else v) for k, v in sorted(ctx.variables.items())],
                    functions=sorted(ctx.functions), tables=repr(ctx.lookuptables), extras=repr(ctx.extras))

    def op_resume(self, k, n):
        if not self.running:
            return
        k %= len(self.running)
        r = self.running[k]
        got, more = take(r['it'], min(n, LIMIT - len(r['got'])), r['real'])
        r['got'] = r['got'] + got
        same(r['where'] + ', continued', r['got'], r['expected'][:len(r['got'])] if more else r['expected'])
        same('tree after ' + r['where'], sut.dump(self.tops[r['i']]), r['before'])
        self.rec.label('continued')
        if len(r['got']) >= LIMIT or not more:
            del self.running[k]

    def op_abandon(self, k):
        if self.running:
            del self.running[k % len(self.running)]

    # Edits

    def elements(self, i):
        return [n for _, n in sut.nodes(self.tops[i]) if not isinstance(n, str)]

    def op_attr(self, ti, at, name, value):
        i = ti % len(self.tops)
        es = self.elements(i)
        attrs = es[at % len(es)].xml_attributes
        if value is None:
            attrs.pop(name, None)
        else:
            attrs[name] = value
        self.changed(i)

    def op_rename(self, ti, at, name):
        i = ti % len(self.tops)
        es = self.elements(i)
        es[at % len(es)].xml_name = name
        self.changed(i)

    def op_insert(self, ti, at, pos, tree):
        i = ti % len(self.tops)
        es = self.elements(i)
        if len(es) > 60:
            return
        e = es[at % len(es)]
        child = tree if isinstance(tree, str) else sut.make(tree)
        e.xml_insert(child, pos % (len(e.xml_children) + 1))
        self.changed(i)

    def op_remove(self, ti, at, pos, keep):
        i = ti % len(self.tops)
        es = [e for e in self.elements(i) if e.xml_children]
        if not es:
            return
        e = es[at % len(es)]
        c = e.xml_children[pos % len(e.xml_children)]
        e.xml_remove(c)
        if keep and not isinstance(c, str) and len(self.tops) < 4:
            self.add(c)
            self.rec.label('split')
        self.changed(i)

    def op_join(self, ti, tj, at, pos):
        i, j = ti % len(self.tops), tj % len(self.tops)
        if i == j:
            return
        es = self.elements(j)
        if len(es) + len(self.elements(i)) > 60:
            return
        e = es[at % len(es)]
        e.xml_insert(self.tops[i], pos % (len(e.xml_children) + 1))
        self.changed(i)
        self.changed(j)
        del self.tops[i], self.version[i]
        self.running = []   # Numbers of trees changed
        self.rec.label('join')

    def op_wrap(self, ti, name):
        from amara3.uxml.tree import element
        i = ti % len(self.tops)
        if len(self.elements(i)) > 60:
            return
        e = element(name)
        e.xml_append(self.tops[i])
        self.tops[i] = e
        self.changed(i)
        self.rec.label('wrap')

    def op_swap(self, ti, at, a, b):
        '''Children in another order, by direct manipulation'''
        i = ti % len(self.tops)
        es = [e for e in self.elements(i) if len(e.xml_children) > 1]
        if not es:
            return
        e = es[at % len(es)]
        a, b = a % len(e.xml_children), b % len(e.xml_children)
        e.xml_children[a], e.xml_children[b] = e.xml_children[b], e.xml_children[a]
        self.changed(i)


def check(case, rec):
    rec.is_nontrivial = False
    # What blows up for one of the original trees is left out
    with oracle():
        for text, e in zip(case['exprs'], case['asts']):
            for t in case['trees']:
                m = xp.Model(t)
                elems = [r for r in m.order if r[0] == 'n' and m.kind(r) == 'element']
                try:
                    vs = case['vars'][0]
                    xp.Eval(m, dict(vs, n=elems[0], f=float(vs['f']), i=float(vs['i']))).run(e, ('r',))
                except xp.TooBig:
                    rec.label('too big')
                    return
                except xp.Ambiguous:
                    pass
    History(case, rec).run()


VARIANTS = [
    (r'\b[abc]\b', lambda s: s.upper()),                     # Names and literals in another case
    (r'(?<=[\'"])[^\'"]*(?=[\'"])', lambda s: s + ' '),      # Blanks in literals
    (r'(?<=[\'"])[^\'"]*(?=[\'"])', lambda s: ' ' + s),
    (r'(?<=[\'"])[^\'"]*(?=[\'"])', str.upper),
    (r'\b[abc]\b', lambda s: dict(a='b', b='c', c='a')[s]),  # Other names
    (r'[0-9]+', lambda s: str(int(s) + 1)),
    (r'[0-9]+', lambda s: s + '.5'),
    (r'[0-9]+', lambda s: '0' + s),
    (r'//', lambda s: '/'),
    (r'(?<!/)/(?!/)', lambda s: '//'),
    (r'\b[abc]\b', lambda s: '*'),
    (r'\$[a-z]', lambda s: '$' + dict(s='i', i='f', f='t', t='n', n='s').get(s[1], s[1])),
    (r'::', lambda s: ' :: '),
    (r'\band\b', lambda s: 'or'),
    (r'<', lambda s: '>'),
    (r'!=', lambda s: '='),
]


# Pairs of literals easily taken for each other
TWINS = [(' z', '  z'), (' z', '\tz'), (' z', '\xa0z'), ('z', 'Z'), ('\xe9', 'e\u0301'), (gen.LONG + 'a', gen.LONG + 'b'), ('1', '1.0'), ('&lt;', '<'), ('/', '//'), ('', ' '), ('\\n', '\n'), ('a', '\u0430')]


def twins(text, k):
    '''Two expressions which only differ in a literal'''
    out = []
    for end in TWINS[k]:
        new = re.sub(r'"[^"]*"|\'[^\']*\'', lambda m: m.group()[:-1] + end + m.group()[-1], text)
        out.append(new if new != text else "({}, '{}')".format(text, end))
    return out


def variant(text, k):
    '''Expression much like another one'''
    return re.sub(VARIANTS[k][0], lambda m: VARIANTS[k][1](m.group()), text)


def respell_op(op, m):
    op = list(op)
    if op[0] == 'attr':
        op[3], op[4] = m['attrs'].get(op[3], op[3]), m['values'].get(op[4], op[4])
    elif op[0] in ('rename', 'wrap'):
        op[-1] = m['elems'].get(op[-1], op[-1])
    elif op[0] == 'insert' and op[-1]:
        op[-1] = xp.respell_tree(op[-1], m) or 'x'
    return op


EXTRA = ["lookup('t', @k)", "lookup($s, 'a')", "//*[lookup('t', name()) = 'A']", "for-each(//*, 'lookup(\"t\", name())')", "for-each(//*, 'count(*)')", "for-each((1, 2), '$s')", '//*[$i]', '//*[@k = $s]', '//*[$t]',
         'count(//*[name() = $s])', '($n, $s, $i)', '//a[count(*) = $i]', "concat($s, '-', $f)", '//*[not(@k)]', '//*[. = $s]/..', '$n/*[1]', '$n//text()', 'name($n)', '//*[@* = $n/@*]', 'boolean($s)',
         'string($n)', '//*[last() = $i]', "//*[lookup('t', @k)]", "count(lookup('t', $s))", '(//*, $n)', '$n | //*', '$n = $s', '$i < $f']


def cases(reuse=False):
    g = xp.Gen(depth=1)
    g2 = xp.Gen(depth=2)
    ast = gen.pick(g.nodes, g.any, g.abs, g.rel, g2.nodes, g2.any, st.tuples(st.just('bin'), st.just('|'), g.nodes0, g.nodes0)).map(xp.listed)
    index = st.integers(0, 12)
    small = st.integers(0, 3)
    tree = xp.xtrees(max_tokens=12)
    entry = st.sampled_from(['compute', 'compute', 'call', 'xml_xpath-text', 'xml_xpath', 'qquery-text', 'qquery'])
    ev = st.tuples(st.just('eval'), small, index, gen.pick(small, st.integers(0, 9)), entry, st.sampled_from([1, 2, LIMIT, LIMIT, LIMIT]), st.booleans(), st.integers(0, 2),
                   st.tuples(gen.pick(st.just(0), st.integers(0, 2)), gen.pick(st.just(0), st.integers(0, 5)), gen.pick(st.just(0), st.integers(0, 3))))
    text = gen.pick(st.sampled_from(["'", '"', "'abc", 'a[', 'a]', '(', ')', '//', '@', '$', 'a b', '1 2', '::', 'child::', 'a/', 'a//', '!', '#', '\x00', 'a=', '=', '', ' ', 'a[1', "concat('", '.5.',
                                      'child :: ::', "a['", '/ /', '()(', 'or', 'text(', "'\n", 'é(', '1a', '%', '&', 'a &', '~', '`']),
                     st.tuples(ast.map(lambda e: xp.render(e, xp.Style([], parens=False))), st.integers(0, 200), st.sampled_from(['', '"', "'", '[', ')', '#', '!', '$$', ' ', '::'])).map(
                         lambda t: t[0][:t[1] % (len(t[0]) + 1)] + t[2]))
    edit = gen.pick(
        st.tuples(st.just('attr'), small, index, st.sampled_from(xp.ATTRS), gen.pick(st.none(), st.sampled_from(xp.VALUES))),
        st.tuples(st.just('rename'), small, index, st.sampled_from(xp.NAMES)),
        st.tuples(st.just('insert'), small, index, small, gen.pick(st.sampled_from(['x', '1', ' ']), gen.trees(name=st.sampled_from(xp.NAMES), aname=st.sampled_from(xp.ATTRS), value=st.sampled_from(xp.VALUES), text=st.sampled_from(['x', '1']), max_tokens=4, heavy=False))),
        st.tuples(st.just('remove'), small, index, small, st.booleans()),
        st.tuples(st.just('join'), small, small, index, small),
        st.tuples(st.just('wrap'), small, st.sampled_from(xp.NAMES)),
        st.tuples(st.just('swap'), small, index, small, small))
    other = st.tuples(st.just('eval'), small, index, small, entry, st.sampled_from([1, 2, LIMIT, LIMIT, LIMIT]), st.sampled_from([False, False, False, True]), st.integers(0, 2),
                      st.tuples(st.integers(0, 2), gen.pick(st.just(0), st.integers(0, 5)), st.integers(0, 3)))
    op = gen.pick(other, other, other, edit) if reuse else gen.pick(*[ev] * 6, edit, edit, edit, edit, st.tuples(st.just('broken'), text), st.tuples(st.just('resume'), small, st.sampled_from([1, 2, LIMIT])),
                   st.tuples(st.just('abandon'), small))
    variables = st.fixed_dictionaries(dict(n=st.integers(0, 10), s=st.sampled_from(xp.VALUES), i=st.integers(-1, 4), f=st.sampled_from([0.0, 1.5, 2.0, 'NaN']), t=st.booleans()))

    def mk(t):
        trees, asts, style, vs, ops, alike, extra, like, m = t
        if m is not None:
            trees = [xp.respell_tree(x, m) for x in trees]
            asts = [xp.respell_expr(x, m) for x in asts]
            vs = [dict(v, s=m['values'].get(v['s'], v['s'])) for v in vs]
            ops = [respell_op(o, m) for o in ops]
        exprs = [xp.render(e, xp.Style(style, parens=False)) for e in asts]
        for i, k in alike:
            exprs.append(variant(exprs[i % len(exprs)], k))
        exprs += extra
        for i, k in like:
            exprs += twins(exprs[i % len(exprs)], k)
        return dict(trees=trees, asts=asts, exprs=exprs, vars=vs, ops=xp.listed(ops))
    return st.tuples(st.lists(tree, min_size=1, max_size=2 if reuse else 3), st.lists(ast, min_size=1, max_size=1 if reuse else 3), gen.tapes(8), st.lists(variables, min_size=3 if reuse else 1, max_size=3), st.lists(op, min_size=6 if reuse else 10, max_size=10 if reuse else 24),
                     gen.pick(st.just([]), st.lists(st.tuples(small, st.integers(0, len(VARIANTS) - 1)), min_size=1, max_size=3)) if not reuse else st.just([]),
                     gen.pick(st.just([]), st.lists(st.sampled_from(EXTRA), min_size=1, max_size=2)),
                     gen.pick(st.just([]), st.lists(st.tuples(small, st.integers(0, len(TWINS) - 1)), min_size=1, max_size=2)), gen.pick(st.none(), st.none(), xp.maps())).map(mk)


SUBS = [
    Sub('histories', cases, check, 2500, 60000),
    Sub('reuse', lambda: cases(True), check, 2500, 60000),
]
