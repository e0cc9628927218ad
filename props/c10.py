'''Streaming senders deliver each matching subtree, complete and in order'''
import io
import os

from hypothesis import strategies as st

from vlib import gen, sut, htmlref, xmlref, env
from vlib.harness import Sub, oracle, same, fail, short
from .c09 import matches, named, as_pattern, step_lists, respelled, chains, derive
from .c06 import render as render_xml, with_encoding

FUEL_PREFIXES = (os.path.join(env.SITE, 'html5lib') + os.sep,)
RULE = ('Random documents (MicroXML, XML with namespaces, entities and encodings, HTML) and one to four patterns, each with a sink of its own kind, some of which '
        'alter what they get; each sink must get exactly the outermost matches computed from the document, as complete at the time of delivery, '
        'in order, over all sinks in order of the end tags; truncated documents give what was complete. Non-trivial: something is delivered, but not just the document element. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['Patterns end in a step other than "**"', 'Sinks of different patterns get an element matched by both in any order']


class ObjectSink:
    '''A sink which is not a generator'''
    def __init__(self, f):
        self.send = f


def make_sink(kind, f):
    '''Sink of the kind, calling f'''
    def loop():
        while True:
            e = yield
            f(e)
    if kind == 'object':
        return ObjectSink(f)
    return loop()


class ShortReads:
    '''File giving less than asked for, which notes how much it gave'''
    def __init__(self, data, size):
        self.fp, self.size, self.given = io.BytesIO(data), size, 0

    def read(self, n=-1):
        d = self.fp.read(min(n, self.size) if n > 0 else self.size)
        self.given += len(d)
        return d


def outermost(tree, steps):
    '''Paths of outermost matches, in document order'''
    out = []
    stack = [((), tree, [named(tree)])]
    while stack:
        p, e, names = stack.pop()
        if matches(steps, names):
            out.append(p)
            continue
        stack.extend((p + (i,), c, names + [named(c)]) for i, c in reversed(list(enumerate(e[2]))) if not isinstance(c, str))
    return out


def at_path(tree, p):
    for i in p:
        tree = tree[2][i]
    return tree


def plain(t):
    '''Normal form: attributes sorted'''
    t = gen.normal(t)
    for e, _ in gen.walk(t):
        e[1] = sorted(e[1])
    return t


def end_order(tree):
    '''Number of each element in order of end tags, by path'''
    out = {}
    stack = [((), tree, False)]
    while stack:
        p, e, done = stack.pop()
        if done:
            out[p] = len(out)
            continue
        stack.append((p, e, True))
        stack.extend((p + (i,), c, False) for i, c in reversed(list(enumerate(e[2]))) if not isinstance(c, str))
    return out


def end_offsets(doc):
    '''Character offset after the end of each element, in order of end tags'''
    import xml.parsers.expat
    data = doc.encode('utf-8')
    p = xml.parsers.expat.ParserCreate()
    out = []

    def end(name):
        i = p.CurrentByteIndex
        j = data.index(b'>', i) + 1
        out.append(len(data[:j].decode('utf-8')))
    p.EndElementHandler = end
    p.Parse(data, True)
    return out


class Watch:
    '''Collects deliveries of all sinks'''
    def __init__(self, kinds, mutate, alter='change'):
        from amara3.uxml.tree import element
        self.alter = alter
        self.container = element('container')
        self.moved = []
        self.log = []       # (sink, tree at delivery)
        self.kept = [[] for _ in kinds]
        self.mutate = mutate
        self.sinks = []
        self.failed = None
        for i, k in enumerate(kinds):
            s = make_sink(k, lambda e, i=i: self.deliver(i, e))
            self.sinks.append(s)

    def deliver(self, i, e):
        try:
            self.take(i, e)
        except Exception as ex:
            self.failed = self.failed or ex
            raise

    def take(self, i, e):
        t = plain(sut.dump(e))
        if e.xml_parent is not None:
            fail('delivered {} has parent {!r}', short(t), e.xml_parent)
        if e.xml_value != gen.value(t):
            fail('value of delivered {} is {!r}', short(t), e.xml_value)
        self.log.append((i, t))
        self.kept[i].append((e, t))
        if self.mutate & (1 << i):
            # This sink keeps the tree for itself, so may change it
            if self.alter == 'move':
                self.container.xml_append(e)
                self.moved.append(e)
                return
            if self.alter == 'insert':
                self.container.xml_insert(e, 0)
                self.moved.insert(0, e)
                return
            if self.alter == 'take apart':
                for c in list(e.xml_children):
                    e.xml_remove(c)
                    if not isinstance(c, str):
                        self.container.xml_append(c)
                        self.moved.append(c)
                return
            e.xml_attributes['mutated'] = 'by {}'.format(i)
            e.xml_name = 'mutated'
            for c in list(e.xml_children):
                if isinstance(c, str):
                    e.xml_remove(c)
                else:
                    c.xml_attributes.clear()
                    c.xml_append('mutated')


def with_tests(pattern):
    '''Pattern with functions instead of names in its tuples'''
    from amara3.uxml.tree import name_test, elem_test
    return tuple((elem_test(),) if s == '*' else tuple(name_test(n) if i % 2 == 0 and isinstance(n, str) else n for i, n in enumerate(s)) if isinstance(s, tuple) else s for s in pattern)


def run(case, tree, send, rec, known_end=None, times=1):
    '''
    send(sender arguments) runs the sender. times: how often the one sender gets the document. known_end: only elements with a lower number in the order of ends are complete
    '''
    patterns = case['patterns']
    kinds = case['sinks']
    with oracle():
        order = end_order(tree)
        expected = []
        per = []
        for i, steps in enumerate(patterns):
            found = outermost(tree, steps)
            if known_end is not None:
                found = [p for p in found if order[p] < known_end]
            per.append([plain(at_path(tree, p)) for p in found])
            expected += [(order[p], i, p) for p in found]
        expected += [(r + t * len(order), i, p) for t in range(1, times) for r, i, p in expected]
        per = [x * times for x in per]
        expected.sort()
        rec.nontrivial(any(p for _, _, p in expected))
        rec.label('{} patterns'.format(len(patterns)), 'deliveries ' + ('0' if not expected else '1' if len(expected) == 1 else '2-9' if len(expected) < 10 else '10+'))
    watch = Watch(kinds, case['mutate'], case['alter'])
    pats = [as_pattern(s) for s in patterns]
    if case['form'] == 2:
        pats = [with_tests(p) for p in pats]
    single = len(pats) == 1 and isinstance(pats[0][0], str) and case['form'] % 2
    if single:
        args = (pats[0], watch.sinks[0])
    else:
        args = (pats, watch.sinks if case['form'] < 2 else tuple(watch.sinks))
    kw = {}
    if case['primed']:
        for s in watch.sinks:
            if not isinstance(s, ObjectSink):
                next(s)
        kw = dict(prime_sinks=False)
    try:
        send(args, kw)
    except Exception:
        if watch.failed is None:
            raise
    if watch.failed is not None:
        raise watch.failed
    got = [[t for i, t in watch.log if i == k] for k in range(len(pats))]
    for k in range(len(pats)):
        same('delivered for pattern {!r} (of {!r}) on {}'.format(pats[k], pats, short(tree)), got[k], per[k])
    # Order over all sinks, where ends differ
    with oracle():
        ranks = {}
        seen = [0] * len(pats)
        lists = [[r for r, i, _ in expected if i == k] for k in range(len(pats))]
    got_order = []
    for i, _ in watch.log:
        got_order.append(lists[i][seen[i]])
        seen[i] += 1
    if got_order != sorted(got_order):
        fail('deliveries for patterns {!r} on {} are not in order of the end tags: {}', pats, short(tree), got_order)
    if [id(c) for c in watch.container.xml_children] != [id(c) for c in watch.moved] or any(c.xml_parent is not watch.container for c in watch.moved):
        fail('sinks put {} delivered elements into an element, which then has {!r}, with patterns {!r} on {}', len(watch.moved), short(watch.container.xml_encode()), pats, short(tree))
    # Later events must not change what was delivered
    for k, kept in enumerate(watch.kept):
        if not case['mutate'] & (1 << k):
            for e, t in kept:
                same('delivered earlier for pattern {!r} of {!r} on {}'.format(pats[k], pats, short(tree)), plain(sut.dump(e)), t)
                if e.xml_parent is not None:
                    fail('delivered earlier {} has got parent {!r}', short(t), e.xml_parent)


def check_micro(case, rec):
    from amara3.uxml import treeiter
    with oracle():
        tree = gen.normal(case['tree'])
        doc = gen.render(tree, case['tape'])
        cut = None
        if case['cut'] is not None:
            ends = end_offsets(doc)
            last = ends[-1]
            cut = case['cut'] % last
            # An offset is of the end of a tag; a complete tag is recognised with its '>'
            known = sum(1 for e in ends if e <= cut)
            text = doc[:cut]
        rec.label('whole' if cut is None else 'truncated')

    def send(args, kw):
        s = treeiter.sender(*args, **kw)
        if cut is None:
            for _ in range(case['times']):
                s.parse(doc)
            return
        try:
            s.parse(text)
        except Exception:
            return
        if text.strip():
            fail('truncated {} is accepted', short(repr(text)))
    run(case, tree, send, rec, None if cut is None else known, case['times'] if cut is None else 1)


def check_xml(case, rec):
    from amara3.uxml import xmliter
    with oracle():
        tree = gen.normal(case['tree'])
        doc, used = render_xml(tree, case['tape'])
        source = with_encoding(doc, case['enc'])
        how = case['how']
        if how != 'parse' and isinstance(source, str):
            source = doc.encode('utf-8')
        rec.label('by ' + how)

    def send(args, kw):
        s = xmliter.sender(*args, **kw)
        if how == 'parse':
            s.parse(source)
        elif how == 'file':
            s.parse_file(io.BytesIO(source))
        else:
            s.parse_file(ShortReads(source, case['size']))
    run(case, tree, send, rec)


def check_html(case, rec):
    from amara3.uxml import html5iter
    with oracle():
        try:
            tree = htmlref.tree(case['src'])
        except htmlref.Unusable:
            rec.nontrivial(False)
            return
        if any(k == '' for e, _ in gen.walk(tree) for k, _ in e[1]):
            return

    def send(args, kw):
        s = html5iter.sender(*args, **kw)
        for _ in range(case['times']):
            s.parse(case['src'])
    run(case, tree, send, rec, times=case['times'])


class Refused(Exception):
    '''Of a sink which does not take an element'''


def check_history(case, rec):
    '''One sender, a history of documents, of which some are broken off by themselves or by a sink'''
    from amara3.uxml import treeiter, html5iter
    html = case['html']
    patterns = case['patterns']
    now = {}

    def deliver(i, e):
        if now['refuse'] is not None and len(now['log']) == now['refuse']:
            raise Refused
        now['log'].append((i, plain(sut.dump(e))))
    pats = [as_pattern(s) for s in patterns]
    sinks = [make_sink('object', lambda e, i=i: deliver(i, e)) for i in range(len(pats))]
    sender = (html5iter if html else treeiter).sender(pats, sinks)
    broken = delivered_after = False
    for n, spec in enumerate(case['docs']):
        with oracle():
            tree = gen.normal(spec['tree'])
            doc = gen.render(tree, spec['tape'])
            if html:
                try:
                    tree = htmlref.tree(doc)
                except htmlref.Unusable:
                    continue
                if any(k == '' for e, _ in gen.walk(tree) for k, _ in e[1]):
                    continue
            order = end_order(tree)
            ends = None if html else end_offsets(doc)
            known = len(order)
            text = doc
            fails = False
            if spec['cut'] is not None and not html:
                cut = spec['cut'] % ends[-1]
                known = sum(1 for e in ends if e <= cut)
                text = doc[:cut] + spec['tail']
                fails = bool(text.strip())
            per = [[plain(at_path(tree, p)) for p in outermost(tree, steps) if order[p] < known] for steps in patterns]
            total = sum(len(p) for p in per)
            refuse = None
            if spec['refuse'] is not None and total:
                refuse = spec['refuse'] % total
            delivered_after = delivered_after or broken and total > 0 and not fails
        now.update(refuse=refuse, log=[])
        try:
            sender.parse(text)
        except Refused:
            if refuse is None:
                raise
        except Exception:
            if not fails:
                raise
        else:
            if refuse is not None:
                fail('the error of a sink is lost')
            if fails:
                fail('broken off {} is accepted', short(repr(text)))
        broken = broken or fails or refuse is not None
        got = [[t for i, t in now['log'] if i == k] for k in range(len(pats))]
        for k in range(len(pats)):
            where = 'delivered for pattern {!r} (of {!r}) on {}, document {} for the sender'.format(pats[k], pats, short(repr(text)), n + 1)
            if refuse is None:
                same(where, got[k], per[k])
            else:
                same(where + ', up to an error in a sink', got[k], per[k][:len(got[k])])
        if refuse is not None:
            same('number of elements taken from {}'.format(short(repr(text))), sum(map(len, got)), refuse)
    rec.nontrivial(broken and delivered_after)
    rec.label('html' if html else 'micro', '{} documents'.format(len(case['docs'])))


def check_early(case, rec):
    '''Big files: what is complete is delivered before the rest is read'''
    from amara3.uxml import xmliter
    with oracle():
        n, size = case['n'], case['size']
        rec_text = '<r k="{}"><v>' + case['text'] + '</v></r>'
        parts = ['<top>']
        offsets = []
        pos = len('<top>')
        for i in range(n):
            p = rec_text.format(i)
            parts.append(p + '\n')
            offsets.append(pos + len(p.encode('utf-8')))
            pos += len((p + '\n').encode('utf-8'))
        parts.append('</top>')
        data = ''.join(parts).encode('utf-8')
        rec.nontrivial(len(data) > 20000)
    got = []

    class Watched(ShortReads):
        def read(self, m=-1):
            # All that ended well before what was given so far has to be there
            due = sum(1 for o in offsets if o <= self.given - 8192)
            if len(got) < due:
                fail('only {} of {} elements were delivered after {} of {} bytes', len(got), due, self.given, len(data))
            return ShortReads.read(self, m)
    fp = Watched(data, size)

    def sink():
        while True:
            e = yield
            got.append(e.xml_attributes['k'])
    xmliter.sender(tuple(case['pattern']), sink()).parse_file(fp)
    same('delivered', got, [str(i) for i in range(n)])


NAMES = ['a', 'b', 'c']


def common(names):
    pats = st.lists(gen.pick(step_lists(names), step_lists(names).map(lambda s: [names[0]] + s), step_lists(names[:2]).map(lambda s: ['**'] + s),
                              step_lists(names[:2]).map(lambda s: ['*'] + s)), min_size=1, max_size=4)
    return pats.flatmap(lambda p: st.fixed_dictionaries(dict(
        patterns=st.just(p), sinks=st.lists(st.sampled_from(['generator', 'generator', 'object']), min_size=len(p), max_size=len(p)),
        mutate=st.sampled_from([0, 0, 1, 2, 3, 5]), alter=st.sampled_from(['change', 'move', 'move', 'insert', 'take apart']), form=st.integers(0, 3), primed=st.booleans())))


def merged(a, b):
    return st.tuples(a, b).map(lambda t: dict(t[0], **t[1]))


def small_trees():
    kw = dict(aname=st.sampled_from(['k', 'id']), value=st.sampled_from(['1', '&', '']), text=st.sampled_from(['x', 'y', ' ', '<']), max_tokens=28)
    return gen.pick(gen.trees(name=st.sampled_from(NAMES), min_tokens=8, heavy=False, **kw), gen.trees(name=st.sampled_from(NAMES[:2]), min_tokens=6, heavy=False, **kw),
                     gen.trees(name=st.sampled_from(NAMES), **kw))


def micro():
    return merged(common(NAMES), st.fixed_dictionaries(dict(tree=small_trees(), tape=gen.tapes(), cut=gen.pick(st.none(), st.none(), st.integers(0, 2000)), times=st.sampled_from([1, 1, 2, 3]))))


def xml_docs():
    return merged(common(NAMES), st.fixed_dictionaries(dict(
        tree=small_trees(), tape=gen.tapes(30), enc=st.sampled_from(['str', 'str', 'utf-8', 'utf-16', 'iso-8859-1']),
        how=st.sampled_from(['parse', 'parse', 'file', 'short']), size=st.sampled_from([1, 2, 3, 7, 50]))))


def html_docs():
    names = ['html', 'body', 'p', 'b', 'div', 'td', 'li', 'a']
    last = st.sampled_from(['p', 'b', 'div', 'td', 'li', 'a', 'table', 'svg', '*'])
    one = gen.pick(last.map(lambda n: ['**', n]), last.map(lambda n: ['html', 'body', n]), st.just(['html', 'head', 'title']), last.map(lambda n: ['html', 'body', '**', n]),
                    st.tuples(last, last).map(lambda t: ['**', t[0], t[1]]), last.map(lambda n: ['**', ['b', n]]), st.just(['html', ['head', 'body']]))
    return merged(common(names), st.fixed_dictionaries(dict(src=gen.pick(htmlref.pages(), htmlref.soup(14)).map(lambda s: s.replace('xmlns', 'xnlms')), override=st.lists(one, min_size=4, max_size=4), times=st.sampled_from([1, 1, 2])))) \
        .map(lambda c: dict({k: v for k, v in c.items() if k != 'override'}, patterns=c['override'][:len(c['patterns'])]))


def long_docs():
    def make(t):
        case, chain = t
        p = [s if s != 'top' else chain['tree'][0] for s in chain['patterns'][0]]
        derived = derive(['', [], [chain['tree']]], 0, case['form'], [0, 0, 5, 4, 1, 0, 3, 2][case['form']:])
        return dict(case, tree=chain['tree'], patterns=(case['patterns'][:-1] if len(case['patterns']) > 1 else [p]) + [derived], sinks=(case['sinks'] * 2)[:max(2, len(case['patterns']))])
    return st.tuples(micro(), chains()).map(make)


def histories():
    doc = st.fixed_dictionaries(dict(tree=small_trees(), tape=gen.tapes(), cut=gen.pick(st.none(), st.integers(0, 2000)), refuse=gen.pick(st.none(), st.none(), st.integers(0, 20)),
                                     tail=st.sampled_from(['', '', '</zz>', '<', '&', '&#0;', '<b k="', '</', '<b k=1>'])))
    return merged(common(NAMES), st.fixed_dictionaries(dict(docs=st.lists(doc, min_size=3, max_size=7), html=st.sampled_from([False] * 4 + [True])))) \
        .map(lambda c: dict(c, patterns=[['html', 'body', '**'] + p for p in c['patterns']] if c['html'] else c['patterns']))


def early():
    return st.fixed_dictionaries(dict(n=st.integers(200, 500), size=st.sampled_from([100, 1000, 2048, 100000]), text=st.sampled_from(['x' * 100, 'é' * 40, 'x &amp; y' * 9]),
                                      pattern=st.sampled_from([['top', 'r'], ['**', 'r'], ['*', 'r'], ['*', '*']])))


SUBS = [
    Sub('micro', respelled(micro, gen.EXPAT_NAME_SETS), check_micro, 6000, 150000),
    Sub('xml', respelled(xml_docs, gen.EXPAT_NAME_SETS), check_xml, 4000, 100000),
    Sub('long micro', respelled(long_docs, gen.EXPAT_NAME_SETS), check_micro, 400, 12000),
    Sub('large micro', gen.enlarged_cases(micro), check_micro, 500, 15000),
    Sub('large xml', gen.enlarged_cases(xml_docs), check_xml, 400, 15000),
    Sub('huge micro', gen.huge_cases(micro), check_micro, 200, 5000),
    Sub('huge xml', gen.huge_cases(xml_docs), check_xml, 200, 5000),
    Sub('html', html_docs, check_html, 2500, 60000),
    Sub('history', histories, check_history, 1500, 40000),
    Sub('early', early, check_early, 24, 300),
]
