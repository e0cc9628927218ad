'''Interleaved parses do not influence each other'''
import io
import json
import os
import re

from hypothesis import strategies as st

from vlib import gen, sut, xp, htmlref, mutate, fresh, env
from vlib.harness import Sub, Violation, oracle, same, fail, short
from .c06 import render as render_xml, with_encoding
from . import c19
from .c09 import as_pattern, step_lists
from .c12 import write_calls, PREFIXES, URIS

FUEL_PREFIXES = (os.path.join(env.SITE, 'html5lib') + os.sep,)
RULE = ('Two to five actors of random kinds (parser coroutine, parsefrags, parse, tree builders for MicroXML, XML and HTML, senders of all kinds, writers, lazy '
        'queries and selections), on random and partly broken documents, advanced by a random schedule; also from within the sinks, handlers, fragment sources and '
        'files of each other. Some are abandoned midway. What each gives has to be what it gives on its own, in a process where nothing was done before. '
        'Non-trivial: two actors which both give something have steps between steps of the other.')
ASSUMPTIONS = ['amara3.uxml.uxpath.lex and the MicroXML scanner are not re-entrant by design (one lexer for each process), but are not kept in use between steps here',
               'An object is not used from within one of its own callbacks']

LIMIT = 60


# Actors: generators which make a step, note what it gave in the log, and yield. poke() lets others take steps, from within a step

def sink_of(kind, f):
    if kind == 'object':
        class Object:
            send = staticmethod(f)
        return Object()

    def loop():
        while True:
            e = yield
            f(e)
    return loop()


def spoil(ev):
    '''Events belong to who gets them'''
    if ev is not None:
        if ev[0].name == 'start_element':
            ev[2]['spoilt'] = '1'
        if ev[0].name != 'characters':
            ev[-1].append('spoilt')


class PokingFile(io.StringIO):
    poke = None

    def write(self, s):
        n = io.StringIO.write(self, s)
        if self.poke:
            self.poke()
        return n


def act_coroutine(spec, log, poke, world):
    from amara3.uxml.parser import parser

    def handler():
        while True:
            ev = yield
            log.append(sut.event_json(ev))
            spoil(ev)
            poke()
    p = parser(handler())
    yield
    for frag in spec['frags']:
        p.send((frag, False))
        yield
    p.send(('', True))
    p.close()
    log.append('complete')


def act_parsefrags(spec, log, poke, world):
    from amara3.uxml.parser import parsefrags

    def source():
        for f in spec['frags']:
            poke()
            yield f
    for ev in parsefrags(source() if spec['lazy'] else spec['frags']):
        log.append(None if ev is None else sut.event_json(ev))
        spoil(ev)
        yield
    log.append('complete')


def act_parse(spec, log, poke, world):
    from amara3.uxml.parser import parse
    for ev in parse(''.join(spec['frags'])):
        log.append(None if ev is None else sut.event_json(ev))
        spoil(ev)
        yield
    log.append('complete')


def act_xml_parse(spec, log, poke, world):
    from amara3.uxml import xml as X

    def handler():
        while True:
            ev = yield
            log.append(sut.event_json(ev))
            spoil(ev)
            poke()
    yield
    X.parse(''.join(spec['frags']), handler())
    log.append('complete')


def parse_with(how):
    '''Function to parse a document with a builder of its own, if there is one'''
    from amara3.uxml import tree as T, xml as X, html5
    import amara3.uxml as U
    if how == 'micro':
        return T.treebuilder().parse
    if how == 'xml':
        return X.treebuilder().parse
    if how == 'tree.parse':
        return T.parse
    if how == 'uxml.parse':
        return U.parse
    if how == 'html':
        return html5.parse
    return html5.parse_lax_xml


def show_tree(how, t):
    if t is None or isinstance(t, str):
        return str(t) if t is not None else None
    return [htmlref.plain(t) if how in ('html', 'lax') else sut.dump(t), 'has parent' if t.xml_parent is not None else '']


def act_builder(spec, log, poke, world):
    how = spec['how']
    parse = parse_with(how)
    yield
    kept = []
    for d in spec['docs']:
        if world.alone:
            parse = parse_with(how)
        try:
            t = parse(d)
        except Exception as e:
            log.append(['raises', type(e).__name__])
            world.errors.append(e)
        else:
            kept.append(t)
            log.append(show_tree(how, t))
        yield
    if spec['edit'] and kept and kept[0] is not None and not isinstance(kept[0], str):
        kept[0].xml_append('new')
        kept[0].xml_attributes['new'] = '1'
        yield
    for t in kept:
        log.append(['kept', show_tree(how, t)])


def act_steps(spec, log, poke, world):
    '''Tree builder or sender with the text given in parts, if it has a handler of events, as now'''
    from amara3.uxml import tree as T, treeiter
    from amara3.uxml.parser import parser
    if spec['pattern'] is None:
        tb = T.treebuilder()
    else:
        tb = treeiter.sender(as_pattern(spec['pattern']), sink_of('object', lambda e: log.append(sut.dump(e))))
    try:
        p = parser(tb._handler())
    except Exception:
        log.append('no handler')
        return
    yield
    for frag in spec['frags']:
        p.send((frag, False))
        yield
    root = getattr(tb, '_root', None)
    log.append(show_tree('micro', root) if isinstance(root, T.element) else 'no root')
    log.append('complete')


def act_sender(spec, log, poke, world):
    from amara3.uxml import treeiter, xmliter, html5iter
    kept = []

    def deliver(i, e):
        t = sut.dump(e)
        log.append([i, t])
        kept.append(e)
        poke()
        if spec['mutate'] & (1 << i):
            e.xml_attributes['mutated'] = str(i)
            e.xml_append('mutated')
    n = len(spec['patterns'])
    pats = world.share(['patterns', spec['patterns']], lambda: [as_pattern(p) for p in spec['patterns']])
    sinks = [sink_of(spec['sinks'][i], lambda e, i=i: deliver(i, e)) for i in range(n)]
    how = spec['how']
    cls = dict(micro=treeiter.sender, xml=xmliter.sender, file=xmliter.sender, html=html5iter.sender)[how]
    if spec['primed']:
        for s in sinks:
            if hasattr(s, '__next__'):
                next(s)
        s = cls(pats, sinks, prime_sinks=False)
    else:
        s = cls(pats, sinks)
    yield
    if how == 'file':
        class File(io.BytesIO):
            def read(self, n=-1):
                poke()
                return io.BytesIO.read(self, min(n, spec['size']) if n > 0 else n)
        s.parse_file(File(''.join(spec['frags']).encode('utf-8', 'surrogatepass')))
        yield
    elif how == 'xml':
        for f in spec['frags']:
            s.parse(f)
            yield
    else:
        s.parse(''.join(spec['frags']))
        yield
    log.append('complete')
    for e in kept:
        log.append(['kept', sut.dump(e)])


def act_writer(spec, log, poke, world):
    from amara3.uxml import writer
    fp = PokingFile()
    fp.poke = poke
    how = spec['how']
    if how == 'namespacer':
        prefixes = world.share(['prefixes', spec['prefixes']], lambda: dict(map(tuple, spec['prefixes'])))
        mapping = world.share(['mapping', spec['mapping']], lambda: {k: tuple(v) for k, v in spec['mapping']})
        kw = {}
        if prefixes or spec['given']:
            kw['prefixes'] = prefixes
        if mapping or spec['given']:
            kw['mapping'] = mapping
        w = writer.namespacer(fp, **kw)
    else:
        kw = {}
        if spec['indent'] is not None:
            kw['indent'] = spec['indent']
        if spec['handler']:
            kw['whandler'] = writer.raw
        w = writer.raw(fp, **kw)
    if spec['whole']:
        top = sut.make(spec['tree'])
        yield
        writer.write(top, w)
        log.append(fp.getvalue())
        return
    # Calls are noted, then made one by one
    calls = []

    class Noting:
        def __getattr__(self, name):
            return lambda *args, **kw: calls.append((name, args, kw))
    write_calls(Noting(), spec['tree'], spec['tape'])
    yield
    for name, args, kw in calls:
        getattr(w, name)(*args, **kw)
        log.append(fp.getvalue())
        yield
    log.append('complete')


def act_query(spec, log, poke, world):
    from amara3.uxml import uxpath
    from .c19 import show
    top = world.tree(spec['tree'])
    real = xp.Real(top)
    text = spec['text']
    how = spec['entry']
    node = real.top
    funcs = None
    if spec['node']:
        elems = [n for _, n in sut.nodes(top) if not isinstance(n, str)]
        node = elems[spec['node'] % len(elems)]
    yield
    if how.endswith('text'):
        expr = text
    else:
        expr = world.share(['expr', text], lambda: uxpath.parse(text))
    yield
    variables = dict(s='x', i=1, f=1.5, t=True, n=node)
    if how.startswith('xml_xpath'):
        it = node.xml_xpath(expr, vars=variables)
    elif how.startswith('qquery'):
        it = uxpath.qquery(node, expr, vars=variables)
    else:
        if isinstance(expr, str):
            expr = uxpath.parse(expr)
        it = iter(expr.compute(uxpath.context(node, variables=variables)))
    n = 0
    for x in it:
        log.append(show(real, x))
        n += 1
        if n >= LIMIT:
            break
        yield
    log.append('complete')


def act_select(spec, log, poke, world):
    from amara3.uxml import treeutil as U
    top = world.tree(spec['tree'])
    path_of = {id(n): list(p) for p, n in sut.nodes(top)}
    what, arg = spec['what'], spec['arg']
    if what == 'pattern':
        it = U.select_pattern(top, world.share(['pattern', spec['pattern']], lambda: as_pattern(spec['pattern'])))
    elif what == 'descendants':
        it = U.descendants(top)
    elif what == 'name':
        it = U.select_name(U.descendants(top), arg)
    elif what == 'name_pattern':
        it = U.select_name_pattern(U.descendants(top), re.compile(arg))
    elif what == 'attribute':
        it = U.select_attribute(U.select_elements(U.descendants(top)), arg)
    elif what == 'value':
        it = U.select_value(U.descendants(top), arg)
    else:
        first = next((c for c in top.xml_children), None)
        it = U.following_siblings(first) if first is not None else ()
    for n in it:
        log.append(path_of[id(n)])
        if len(log) > 5 * LIMIT:
            break
        yield
    log.append('complete')


ACTORS = dict(steps=act_steps, coroutine=act_coroutine, parsefrags=act_parsefrags, parse=act_parse, xml_parse=act_xml_parse, builder=act_builder, sender=act_sender, writer=act_writer, query=act_query, select=act_select)


class World:
    '''What actors have in common'''
    def __init__(self, trees, nest):
        self.specs = trees
        self.trees = {}
        self.shared = {}
        self.alone = False
        self.actors = []
        self.failed = None
        self.errors = []    # With all that they refer to
        self.nest = nest
        self.nested = self.depth = 0
        self.trace = []

    def tree(self, i):
        i %= len(self.specs)
        if i not in self.trees:
            self.trees[i] = sut.make(self.specs[i])
        return self.trees[i]

    def share(self, key, make):
        key = json.dumps(key)
        if key not in self.shared:
            self.shared[key] = make()
        return self.shared[key]

    def poke(self):
        if not self.nest or self.depth > 3:
            return
        k = self.nest[self.nested % len(self.nest)]
        self.nested += 1
        if k and k <= len(self.actors):
            self.actors[k - 1].step()


class Actor:
    def __init__(self, world, i, spec):
        self.world, self.i, self.log, self.done, self.running = world, i, [], False, False
        self.left = spec['stop'] if spec['stop'] is not None else 400
        self.it = ACTORS[spec['kind']](spec, self.log, world.poke, world)

    def step(self):
        if self.done or self.running:
            return False
        self.running = True
        self.world.depth += 1
        self.world.trace.append(self.i)
        try:
            if self.left <= 0:
                self.done = True
                self.log.append('abandoned')
                self.it.close()
            else:
                self.left -= 1
                next(self.it)
        except StopIteration:
            self.done = True
        except Violation as e:
            self.world.failed = self.world.failed or e
            self.done = True
        except Exception as e:
            self.log.append(['raises', type(e).__name__])
            self.world.errors.append(e)
            self.done = True
        finally:
            self.running = False
            self.world.depth -= 1
        if self.done:
            self.it = None
        return True


def alone(request):
    '''Log of an actor which has the world to itself'''
    world = World(request['trees'], [])
    world.alone = True
    a = Actor(world, 0, request['spec'])
    while a.step():
        pass
    if world.failed is not None:
        return ['failed', str(world.failed)]
    return a.log


server = fresh.Server(alone)


def imports():
    '''Before the server is started, to have this done once'''
    import html5lib
    import amara3.uxml
    from amara3.uxml import tree, xml, html5, treeiter, xmliter, html5iter, writer, uxpath, treeutil
    from . import c19


def check(case, rec):
    specs = case['actors']
    imports()
    with oracle():
        expected = []
        for s in specs:
            status, log = server.ask(dict(trees=case['trees'], spec=s))
            if status != 'ok':
                rec.label('alone: ' + status)
                rec.nontrivial(False)
                return
            expected.append(log)
    world = World(case['trees'], case['nest'])
    for i, s in enumerate(specs):
        world.actors.append(Actor(world, i, s))
    for k in case['schedule']:
        world.actors[k % len(specs)].step()
    while any([a.step() for a in world.actors]):
        pass
    if world.failed is not None:
        raise world.failed
    got = [a.log for a in world.actors]
    with oracle():
        between = {(a, b) for a in range(len(specs)) for b in range(len(specs)) if a != b and re.search('{0}.*{1}.*{0}'.format(a, b), ''.join(map(str, world.trace)))}
        rec.nontrivial(any((b, a) in between and len(expected[a]) > 1 and len(expected[b]) > 1 for a, b in between))
        rec.label('{} actors'.format(len(specs)), *{s['kind'] + (' ' + s['how'] if 'how' in s else '') for s in specs})
        if world.nested:
            rec.label('nested')
        for e in expected:
            rec.label('abandoned' if e and e[-1] == 'abandoned' else 'fails' if e and isinstance(e[-1], list) and e[-1][:1] == ['raises'] else 'complete')
    for i, s in enumerate(specs):
        if json.loads(json.dumps(got[i])) != expected[i]:
            n = next((k for k, (x, y) in enumerate(zip(json.loads(json.dumps(got[i])), expected[i])) if x != y), min(len(got[i]), len(expected[i])))
            fail('{} interleaved as {} (actors: {}) gives something else than alone from its log entry {} on:\n  got      {}\n  expected {}',
                 short(s, 400), short(str(world.trace), 200), short([x['kind'] for x in specs]), n, short(got[i][n:]), short(expected[i][n:]))


NAMES = ['a', 'b', 'c']


def cut(doc, cuts):
    at = [0] + sorted(c % (len(doc) + 1) for c in cuts) + [len(doc)]
    return [doc[a:b] for a, b in zip(at, at[1:])]


def cases():
    small = gen.trees(name=st.sampled_from(NAMES), aname=st.sampled_from(['k', 'id']), value=st.sampled_from(['1', '&', '', '"\'']), text=st.sampled_from(['x', 'y', ' ', '<', '\n']),
                      max_tokens=12, min_tokens=3, heavy=False)
    micro_doc = gen.pick(*[st.tuples(small, gen.tapes(8)).map(lambda t: gen.render(*t))] * 4,
                          *[st.tuples(gen.trees(max_tokens=8, heavy=False), gen.tapes(8)).map(lambda t: gen.render(*t))] * 2, mutate.mutated(small), mutate.mutated(small), mutate.soup())
    xml_doc = gen.pick(*[st.tuples(small, gen.tapes(20)).map(lambda t: render_xml(*t)[0])] * 4, mutate.mutated(small))
    html_doc = gen.pick(htmlref.pages(), htmlref.soup(10))
    cuts = st.lists(st.integers(0, 300), min_size=2, max_size=8)

    def frags(doc):
        return st.tuples(doc, cuts).map(lambda t: cut(*t))
    stop = gen.pick(*[st.none()] * 5, st.integers(0, 12))

    def spec(kind, **kw):
        return st.fixed_dictionaries(dict(kind=st.just(kind), stop=stop, **kw))
    no_surrogates = lambda s: not any('\ud800' <= c <= '\udfff' for c in s)
    xml_doc = xml_doc.filter(no_surrogates)
    html_doc = html_doc.filter(no_surrogates)
    pattern = gen.pick(step_lists(NAMES), step_lists(NAMES[:2]).map(lambda s: ['**'] + s), step_lists(NAMES[:2]).map(lambda s: ['*'] + s), st.just(['**', '*']))
    html_pattern = st.sampled_from(['p', 'b', 'div', 'td', 'li', 'a', '*']).map(lambda n: ['**', n])

    def senders(how, doc, pattern):
        return st.lists(pattern, min_size=1, max_size=3).flatmap(lambda p: spec(
            'sender', how=st.just(how), patterns=st.just(p), sinks=st.lists(st.sampled_from(['generator', 'object']), min_size=len(p), max_size=len(p)),
            mutate=st.sampled_from([0, 0, 1, 3]), primed=st.booleans(), frags=frags(doc), size=st.sampled_from([1, 5, 40])))

    def builders(how, doc):
        return spec('builder', how=st.just(how), docs=st.lists(doc, min_size=1, max_size=3), edit=st.booleans())
    indent = st.sampled_from([None, None, '  ', '\t', 2])
    writer = spec('writer', how=st.just('raw'), tree=small, tape=gen.tapes(8), indent=indent, handler=st.booleans(), whole=st.booleans())
    prefixes = st.lists(st.tuples(st.sampled_from(PREFIXES), st.sampled_from(URIS)).map(list), max_size=3, unique_by=lambda t: t[0])
    mapping = st.lists(st.tuples(st.sampled_from(NAMES + ['@k', '@id']), st.sampled_from([['urn:x', 'p'], ['X', 'q']])).map(list), max_size=3, unique_by=lambda t: t[0])
    namespacer = spec('writer', how=st.just('namespacer'), tree=small, tape=gen.tapes(8), prefixes=prefixes, mapping=mapping, given=st.booleans(), whole=st.booleans())
    g = xp.Gen(depth=1)
    text = gen.pick(g.nodes, g.nodes0, g.any).map(xp.listed).map(lambda e: xp.render(e, xp.Style([], parens=False)))
    text = gen.pick(st.sampled_from(['//a', '//*', '//node()', '//a/..', '//a[b]', 'descendant::*[2]', '//@*', '(//a, //b)', '//a|//b', '//*/following::*', '//b/preceding::node()', 'a[', 'for-each(//*, "name()")']), text, text)
    inner = st.sampled_from(['name()', '1', '.', 'string()', '*', '@*', 'count(*)', '..', '"x"', 'a', 'b', '//a', 'name(..)', '(1, 2)', 'for-each(*, \'name()\')', 'text()', '(', '$s', 'concat(name(), \'1\')'])
    each = st.tuples(st.sampled_from(['//*', '*', '//a', '//node()', '(1, 2, 3)', '//@*', '*/*']), inner).map(lambda t: 'for-each({}, "{}")'.format(*t) if '"' not in t[1] else "for-each({}, '{}')".format(*t))
    text = gen.pick(text, text, text, each)
    query = spec('query', tree=st.integers(0, 1), text=text, entry=st.sampled_from(['xml_xpath', 'xml_xpath-text', 'qquery', 'qquery-text', 'compute', 'compute-text']), node=st.integers(0, 5))
    select = spec('select', tree=st.integers(0, 1), what=st.sampled_from(['pattern', 'pattern', 'descendants', 'name', 'name_pattern', 'attribute', 'value', 'siblings']),
                  arg=st.sampled_from(NAMES + ['k', 'x']), pattern=pattern)
    kinds = [spec('coroutine', frags=frags(micro_doc)), spec('coroutine', frags=frags(micro_doc)), spec('parsefrags', frags=frags(micro_doc), lazy=st.booleans()),
             spec('parsefrags', frags=frags(micro_doc), lazy=st.booleans()),
             spec('parse', frags=frags(micro_doc)), spec('xml_parse', frags=frags(xml_doc)), builders('micro', micro_doc), builders('xml', xml_doc), builders('tree.parse', micro_doc), builders('uxml.parse', micro_doc),
             builders('html', html_doc), builders('lax', xml_doc), senders('micro', micro_doc, pattern), senders('micro', micro_doc, pattern), senders('xml', xml_doc, pattern),
             senders('xml', xml_doc, pattern), senders('file', xml_doc, pattern), senders('html', html_doc, html_pattern), writer, writer, namespacer, namespacer, query, query, select]
    entry = st.sampled_from(['xml_xpath-text', 'qquery-text', 'compute-text'])
    eachs = spec('query', tree=st.integers(0, 1), text=each, entry=entry, node=st.just(0))
    patterns = spec('select', tree=st.integers(0, 1), what=st.just('pattern'), arg=st.just('a'), pattern=gen.pick(pattern, st.lists(st.sampled_from(['*', '*', 'a', 'b', ['a', 'b']]), min_size=2, max_size=2)))
    steps = gen.pick(spec('steps', frags=frags(micro_doc), pattern=st.none()), spec('steps', frags=frags(micro_doc), pattern=pattern.filter(lambda p: not isinstance(p[0], list))))
    kinds.append(steps)
    # Actors of all kinds, of one kind, and twice the same
    one = gen.pick(*kinds)
    of_one_kind = gen.pick(*(st.lists(k, min_size=2, max_size=3) for k in kinds + [eachs, patterns]))
    alike = st.tuples(query, st.lists(st.integers(0, len(c19.VARIANTS) - 1), min_size=1, max_size=2)).map(lambda t: [t[0]] + [dict(t[0], text=c19.variant(t[0]['text'], k)) for k in t[1]])
    twice = st.tuples(one, st.lists(one, max_size=1)).map(lambda t: [t[0], t[0]] + t[1])
    actors = gen.pick(st.lists(one, min_size=2, max_size=5), of_one_kind, of_one_kind, twice, of_one_kind, of_one_kind, alike)
    return st.fixed_dictionaries(dict(
        actors=actors, trees=st.lists(xp.xtrees(max_tokens=12), min_size=2, max_size=2),
        schedule=gen.pick(st.lists(st.integers(0, 4), min_size=10, max_size=80), st.lists(st.integers(0, 1), min_size=12, max_size=80)),
        nest=gen.pick(st.just([]), st.lists(st.integers(0, 6), min_size=1, max_size=8))))


SUBS = [Sub('interleaved', cases, check, 6500, 150000)]
