'''Processed subtrees and documents are released'''
import gc
import io
import os
import weakref

from hypothesis import strategies as st

from vlib import gen, sut, xp, env, htmlref
from vlib.harness import Sub, oracle, fail, short
from .c09 import as_pattern
from .c10 import ShortReads

FUEL_PREFIXES = (os.path.join(env.SITE, 'html5lib') + os.sep,)
RULE = ('Streaming: documents with 40 to 300 records of random content and nesting, random patterns (one to three), all senders; sinks only keep weak '
        'references, and count those still alive at each delivery. Histories: trees made by all parsers and the API, queried (random expressions by all entry '
        'points, to the end or only partly, with compiled expressions that live on), streamed, edited, serialised, then dropped at any time, after which weak '
        'references to all of their nodes have to be dead after a garbage collection. Non-trivial: at least 20 deliveries; a tree queried or parsed before it is dropped.')
ASSUMPTIONS = ['The user drops parsers, builders, contexts, results and unfinished evaluations along with the tree', 'At most four subtrees, and two for each pattern, may still be held during a delivery']

_frozen = []


def collect():
    if not _frozen:
        gc.collect()
        gc.freeze()     # Not to go through all of the harness, again and again
        _frozen.append(True)
    gc.collect()


def check_stream(case, rec):
    from amara3.uxml import treeiter, xmliter, html5iter
    records, n, how = case['records'], case['n'], case['how']
    patterns = case['patterns']
    with oracle():
        parts = []
        for i in range(n):
            parts.append(gen.render(records[i % len(records)], [0]).strip())
        if how == 'html':
            doc = '<html><head></head><body><ul>' + ''.join('<li>{}<b>{}</b></li>'.format(i, 'x' * (i % 3)) for i in range(n)) + '</ul></body></html>'
        else:
            doc = '<top>' + ''.join(parts) + '</top>'
        rec.label(how, '{} patterns'.format(len(patterns)))
    refs = []
    bound = 4 + 2 * len(patterns)

    def watch():
        alive = sum(r() is not None for r in refs)
        if alive > bound:
            collect()
            alive = sum(r() is not None for r in refs)
            if alive > bound:
                fail('{} of {} delivered subtrees are still held, with patterns {!r} on {}', alive, len(refs), patterns, short(doc, 300))
        # Those gone need no more counting
        if len(refs) > 3 * bound:
            counted.append(len(refs))
            refs[:] = [r for r in refs if r() is not None]

    counted = []

    def sink():
        e = None
        while True:
            e = yield
            refs.append(weakref.ref(e))
            inner = e.xml_children[0] if e.xml_children else None
            if inner is not None:
                refs.append(weakref.ref(inner))
            total[0] += 1
            del e, inner
            watch()

    total = [0]
    sinks = [sink() for _ in patterns]
    pats = [as_pattern(p) for p in patterns]
    if how == 'html':
        pats = [p for p in (('**', 'li'), ('html', 'body', 'ul', 'li', 'b'), ('**', 'ul', '*'))][:len(pats)]
    cls = dict(micro=treeiter.sender, xml=xmliter.sender, file=xmliter.sender, html=html5iter.sender)[how]
    s = cls(pats, sinks)
    if how == 'file':
        s.parse_file(ShortReads(doc.encode('utf-8'), case['size']))
    else:
        s.parse(doc)
    rec.nontrivial(total[0] >= 20)
    rec.label('deliveries ' + ('0' if not total[0] else '1-19' if total[0] < 20 else '20+'))
    # Sinks have let go of everything, so only the sender may still hold something
    alive = sum(r() is not None for r in refs)
    if alive > 2 * bound:
        fail('{} subtrees are held after the end', alive)
    del s, sinks
    collect()
    alive = sum(r() is not None for r in refs)
    if alive:
        fail('{} delivered subtrees are held after sender and sinks are gone', alive)


NAMES = ['a', 'b', 'c']


def streams():
    record = gen.trees(name=st.sampled_from(NAMES), aname=st.sampled_from(['k', 'id']), value=st.sampled_from(['1', '']), text=st.sampled_from(['x', ' y']),
                       max_tokens=6, heavy=False)
    last = st.sampled_from(NAMES + ['*', ['a', 'b']])
    pattern = gen.pick(last.map(lambda n: ['top', n]), last.map(lambda n: ['**', n]), last.map(lambda n: ['*', n]),
                        st.tuples(last, last).map(lambda t: ['**', t[0], t[1]]), st.just(['**', 'a', '**', 'b']), last.map(lambda n: ['top', '**', n]))
    return st.fixed_dictionaries(dict(
        records=st.lists(record, min_size=1, max_size=4), n=st.sampled_from([40, 60, 100, 300]), patterns=st.lists(pattern, min_size=1, max_size=3),
        how=st.sampled_from(['micro', 'xml', 'file', 'file', 'html']), size=st.sampled_from([7, 50, 1000])))


# Histories

def make(how, tree):
    from amara3.uxml import tree as T, xml as X, html5
    if how == 'api':
        return sut.make(tree)
    doc = gen.render(tree, [0]).strip()
    if how == 'micro':
        return T.parse(doc)
    if how == 'uxml':
        import amara3.uxml
        return amara3.uxml.parse(doc)
    if how == 'builder':
        return T.treebuilder().parse(doc)
    if how == 'xml':
        return X.treebuilder().parse(doc)
    if how == 'lax':
        return html5.parse_lax_xml(doc)
    if how == 'html':
        return html5.parse(doc)
    raise AssertionError(how)


class Tree:
    '''What the user holds of a tree'''
    def __init__(self, how, top):
        self.how, self.top = how, top
        self.held = []
        self.made = []
        self.refs = [weakref.ref(n) for _, n in sut.nodes(top)]
        self.queried = False

    def more(self):
        known = {id(r()) for r in self.refs}
        self.refs += [weakref.ref(n) for _, n in sut.nodes(self.top) if id(n) not in known]


def use(t, op, compiled, rec):
    from amara3.uxml import uxpath, treeutil, writer, treeiter
    from amara3.uxml.uxpath import context, qquery
    what = op[0]
    if what == 'query':
        _, how, text, at, take, kept = op
        nodes = [n for _, n in sut.nodes(t.top)]
        node = nodes[at % len(nodes)]
        try:
            if how == 'qquery':
                it = qquery(node, text)
            elif how == 'xml_xpath':
                it = node.xml_xpath(text)
            else:
                expr = compiled.get(text)
                if expr is None:
                    expr = compiled[text] = uxpath.parse(text)
                if how == 'compute':
                    it = expr.compute(context(node, variables={'n': nodes[(at + 1) % len(nodes)], 's': 'x', 'i': 1, 'f': 1.5, 't': True}))
                elif how == 'call':
                    it = expr(context(node, force_root=False))
                elif how == 'qquery-compiled':
                    it = qquery(node, expr)
                else:
                    it = node.xml_xpath(expr)
            it = iter(it)
            results = []
            for item in it:
                results.append(item)
                if len(results) >= take:
                    break
            if kept:
                t.held += [it, results, node]
            rec.label('results ' + ('0' if not results else '1+'))
        except (KeyError, NotImplementedError, RuntimeError, AttributeError, TypeError, ValueError, AssertionError) as e:
            # Not all expressions work from all nodes, in all ways
            rec.label('query fails')
            del e
        t.queried = True
        rec.label('query by ' + how)
    elif what == 'encode':
        t.top.xml_encode()
        repr(t.top)
    elif what == 'write':
        writer.write(t.top, writer.raw(io.StringIO()))
    elif what == 'pretty':
        treeutil.make_pretty(t.top)
        t.more()
    elif what == 'select':
        t.held.append(treeutil.select_pattern(t.top, ('**', 'a')))
        next(t.held[-1], None)
        t.held.append(treeutil.descendants(t.top))
        next(t.held[-1], None)
    elif what == 'edit':
        elems = [n for _, n in sut.nodes(t.top) if not isinstance(n, str)]
        e = elems[op[1] % len(elems)]
        if op[2] == 'append':
            e.xml_append('new')
            t.more()
        elif op[2] == 'remove' and e.xml_children:
            e.xml_remove(e.xml_children[0])
        else:
            e.xml_attributes['k'] = 'v'
    elif what == 'stream':
        def sink():
            while True:
                yield
        s = treeiter.sender(('**', 'a'), sink())
        s.parse(t.top.xml_encode())


def check_history(case, rec):
    trees, compiled = {}, {}
    rec.is_nontrivial = False

    def drop(i):
        t = trees.pop(i, None)
        if t is None:
            return
        refs, how, queried = t.refs, t.how, t.queried
        t.held.clear()
        t.top = None
        del t
        collect()
        alive = [r() for r in refs if r() is not None]
        if alive:
            what = [repr(getattr(e, 'xml_name', e)) for e in alive[:5]]
            n = len(alive)
            alive = None
            fail('{} of {} nodes of a tree made by {} are held after it was dropped: {}', n, len(refs), how, ', '.join(what))
        rec.label('dropped ' + how + (' after queries' if queried else ''))
        if queried or how not in ('api',):
            rec.is_nontrivial = True

    for op in case['ops']:
        i = op[1] % 3
        if op[0] == 'make':
            drop(i)
            top = make(op[2], op[3])
            trees[i] = Tree(op[2], top)
            del top
        elif op[0] == 'drop':
            drop(i)
        elif trees:
            use(trees[sorted(trees)[op[1] % len(trees)]], op[2], compiled, rec)
    for i in list(trees):
        drop(i)


def histories():
    g = xp.Gen(depth=2)
    expr = gen.pick(g.nodes, g.any, g.abs, g.rel).map(xp.listed).map(lambda e: xp.render(e, xp.Style([], parens=False)))
    expr = gen.pick(st.sampled_from(['//a', '/a', '//a[1]', 'a|b', '..', 'ancestor::*', '//@*', '//text()', 'following::*', 'preceding::a', '/a//b/text()', '//a[@id]|//b',
                                      'ancestor-or-self::node()', '(a, b)', 'for-each(//*, "name()")', 'count(//*)', 'string(/a)', '//*[../a]', '/']), expr)
    tree = gen.trees(name=st.sampled_from(NAMES), aname=st.sampled_from(['id', 'k']), value=st.sampled_from(['1', 'x']), text=st.sampled_from(['x', 'y', ' ']), max_tokens=10, heavy=False)
    index = st.integers(0, 8)
    query = st.tuples(st.just('query'), st.sampled_from(['qquery', 'xml_xpath', 'compute', 'call', 'qquery-compiled', 'xml_xpath-compiled']), expr, index,
                      st.sampled_from([1, 2, 1000, 1000]), st.booleans())
    other = gen.pick(st.sampled_from([('encode',), ('write',), ('pretty',), ('select',), ('stream',)]),
                      st.tuples(st.just('edit'), index, st.sampled_from(['append', 'remove', 'attr'])))
    op_make = st.tuples(st.just('make'), index, st.sampled_from(['micro', 'builder', 'xml', 'lax', 'html', 'api', 'uxml']), tree)
    op_use = st.tuples(st.just('use'), index, gen.pick(query, query, query, other))
    op = gen.pick(op_make, *[op_use] * 8, st.tuples(st.just('drop'), index))
    return st.tuples(st.lists(op_make.map(lambda t: (t[0], 0) + t[2:]), min_size=1, max_size=1), st.lists(op, min_size=4, max_size=16)) \
        .map(lambda t: dict(ops=xp.listed(t[0] + t[1])))


def soups():
    return st.fixed_dictionaries(dict(src=gen.pick(htmlref.soup(14), htmlref.pages()), lax=st.booleans()))


def check_soup(case, rec):
    '''The HTML tree builder clones and moves nodes'''
    from amara3.uxml import html5
    rec.nontrivial(case['src'].count('<') > 2)
    try:
        top = (html5.parse_lax_xml if case['lax'] else html5.parse)(case['src'])
    except Exception:
        rec.label('fails')
        rec.nontrivial(False)
        return
    if top is None:
        return
    refs = [weakref.ref(n) for _, n in sut.nodes(top)]
    if not isinstance(top, str):
        list(top.xml_xpath('//*'))
    del top
    collect()
    alive = sum(r() is not None for r in refs)
    if alive:
        fail('{} of {} nodes are held after the tree was dropped, for {!r}', alive, len(refs), short(case['src']))


SUBS = [
    Sub('streaming', streams, check_stream, 500, 20000),
    Sub('histories', histories, check_history, 2000, 80000),
    Sub('soup', soups, check_soup, 1000, 20000),
]
