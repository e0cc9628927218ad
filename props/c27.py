'''Threads do not influence each other'''
import io
import itertools
import json
import os
import sys

from hypothesis import strategies as st

from vlib import env, gen, htmlref, sut, threads, xp
from vlib.harness import Sub, oracle, fail, short
from . import c26
from .c09 import as_pattern
from .c19 import show
from .c26 import World, Actor, server, imports

FUEL_PREFIXES = c26.FUEL_PREFIXES
RULE = ('Two to four actors as in C26 (parsers, builders, senders, writers, queries, selections, amara3.uxml.parse), each in a thread of its own, all on documents of their own, '
        'queries and selections also on common trees and compiled expressions. Only one thread runs at a time, and a random schedule says after how many lines '
        'of the library it is interrupted, and by which other one, so that each run can be repeated. What each gives has to be what it gives on its own, in a process where nothing '
        'was done before. calls: two or three threads which make one or two calls each (parse, build, stream, serialise, write, string values, queries, selections, casts), mostly of the same kind; '
        'the first is interrupted by all of the others at 24 points, most of these a random line of those it runs. Each call has to give what it gave before, in one thread. '
        'Non-trivial: threads which both give something interrupt each other.')
ASSUMPTIONS = ['Interruptions happen between lines of the library', 'Each thread uses parsers, builders, senders and writers of its own, and none edits a tree which others read',
               'amara3.uxml.lex is not re-entrant by its documentation, so left out']


def check(case, rec):
    specs = case['actors']
    imports()
    with oracle():
        expected = []
        for s in specs:
            status, log = server.ask(dict(trees=case['trees'], spec=s))
            if status != 'ok':
                rec.label('alone: ' + status)
                rec.nontrivial(False)
                return
            expected.append(log)
    world = World(case['trees'], [])
    for i, s in enumerate(specs):
        world.actors.append(Actor(world, i, s))

    def runner(a):
        def run():
            while a.step():
                pass
        return run
    schedule = threads.Schedule([runner(a) for a in world.actors], case['turns'], [os.path.join(env.scratch(), 'path') + os.sep, env.REPO + os.sep])
    schedule.run()
    for e in schedule.errors.values():
        raise e
    if world.failed is not None:
        raise world.failed
    got = [a.log for a in world.actors]
    with oracle():
        both = {(a, b) for a, b in schedule.switches if len(expected[a]) > 1 and len(expected[b]) > 1}
        rec.nontrivial(any((b, a) in both for a, b in both))
        n = len(schedule.switches)
        rec.label('{} threads'.format(len(specs)), 'switches ' + ('0-4' if n < 5 else '5-19' if n < 20 else '20+'), *{s['kind'] + (' ' + s['how'] if 'how' in s else '') for s in specs})
        for e in expected:
            rec.label('abandoned' if e and e[-1] == 'abandoned' else 'fails' if e and isinstance(e[-1], list) and e[-1][:1] == ['raises'] else 'complete')
    for i, s in enumerate(specs):
        log = json.loads(json.dumps(got[i]))
        if log != expected[i]:
            n = next((k for k, (x, y) in enumerate(zip(log, expected[i])) if x != y), min(len(log), len(expected[i])))
            fail('{} in a thread (others: {}; switches {}) gives something else than alone from its log entry {} on:\n  got      {}\n  expected {}',
                 short(s, 400), short([x['kind'] for k, x in enumerate(specs) if k != i]), short(str(schedule.switches), 200), n, short(log[n:]), short(expected[i][n:]))


def cases():
    turn = st.tuples(gen.pick(st.integers(1, 5), st.integers(1, 40), st.integers(1, 40), st.integers(20, 400)), st.integers(0, 3))
    return st.tuples(c26.cases(), st.lists(turn, min_size=8, max_size=60)) \
        .map(lambda t: dict(actors=t[0]['actors'][:4], trees=t[0]['trees'], turns=[list(x) for x in t[1]]))


# Calls, each thread making a few, and the first one being interrupted once

def tree_of(case, i):
    return sut.make(case['trees'][i % len(case['trees'])])


def do_call(call, shared):
    from amara3.uxml import tree as T, xml as X, html5, treeutil as U, writer, uxpath, treeiter, xmliter, html5iter
    from amara3.uxml.uxpath import xast
    import amara3.uxml
    import amara3.uxml.parser as P
    kind = call[0]
    if kind in ('strval', 'encode', 'value', 'write', 'query', 'select', 'path'):
        top, real = shared['trees'][call[1] % len(shared['trees'])]
    if kind == 'strval':
        return [T.strval(n) for n in U.descendants(top)] + [T.strval(top)]
    if kind == 'value':
        return [n.xml_value for n in U.descendants(top)] + [top.xml_value]
    if kind == 'encode':
        return top.xml_encode(indent=call[2])
    if kind == 'write':
        fp = io.StringIO()
        writer.write(top, writer.raw(fp) if call[2] == 'raw' else writer.namespacer(fp, prefixes={'p': 'urn:p'}, mapping={'a': ('urn:p', 'p'), '@k': ('urn:p', 'p')}))
        return fp.getvalue()
    if kind == 'path':
        return [show(real, n) for n in U.select_pattern(top, as_pattern(call[2]))]
    if kind == 'select':
        return [e.xml_value for e in U.select_attribute(U.select_elements(U.descendants(top)), call[2])] + [e.xml_value for e in U.select_name(U.descendants(top), call[2])]
    if kind == 'query':
        entry, text, node = call[2:]
        if node:
            elems = [n for _, n in sut.nodes(top) if not isinstance(n, str)]
            top = elems[node % len(elems)]
        variables = dict(s='x', i=1, f=1.5, t=True, n=top)
        expr = text if entry.endswith('text') else shared['exprs'].get(text) or uxpath.parse(text)
        if entry.startswith('xml_xpath'):
            it = top.xml_xpath(expr, vars=variables)
        elif entry.startswith('qquery'):
            it = uxpath.qquery(top, expr, vars=variables)
        else:
            it = (uxpath.parse(expr) if isinstance(expr, str) else expr).compute(uxpath.context(top, variables=variables))
        return [show(real, x) for x in itertools.islice(it, 60)]
    if kind == 'serialize':
        return xast.serialize(uxpath.parse(call[1]))
    if kind == 'cast':
        return [repr(next(f(x))) for x in call[1:] for f in (xast.to_string, xast.to_number, xast.to_boolean)]
    doc = call[1]
    if kind == 'qquery':
        return [x.xml_value if hasattr(x, 'xml_value') else repr(x) for x in itertools.islice(uxpath.qquery(doc.encode('utf-8') if call[3] else doc, call[2]), 60)]
    if kind == 'events':
        return [sut.event_json(e) for e in P.parse(doc) if e]
    if kind == 'xml events':
        acc = []
        X.parse(doc, sut.collector(acc))
        return [sut.event_json(e) for e in acc]
    if kind == 'build':
        f = dict(micro=T.parse, uxml=amara3.uxml.parse, xml=lambda d: X.treebuilder().parse(d), html=html5.parse, lax=html5.parse_lax_xml, fragment=html5.markup_fragment)[call[2]]
        t = f(doc)
        return htmlref.plain(t) if call[2] in ('html', 'lax', 'fragment') else sut.dump(t)
    if kind == 'pretty':
        t = T.parse(doc)
        U.make_pretty(t)
        return t.xml_encode()
    if kind == 'send':
        out = []
        sink = c26.sink_of('object', lambda e: out.append(e.xml_encode()))
        f = dict(micro=treeiter, xml=xmliter, html=html5iter)[call[2]].sender
        f(as_pattern(call[3]), sink).parse(doc)
        return out
    raise AssertionError(call)


def run_calls(calls, shared):
    out = []
    for c in calls:
        try:
            out.append(do_call(c, shared))
        except Exception as e:
            out.append(['raises', type(e).__name__])
    return out


def check_calls(case, rec):
    from amara3.uxml import uxpath
    imports()
    prefixes = (os.path.join(env.scratch(), 'path') + os.sep, env.REPO + os.sep)
    jobs = case['jobs']
    texts = {c[3] for j in jobs for c in j if c[0] == 'query'}

    def new():
        tops = [sut.make(t) for t in case['trees']]
        shared = dict(trees=[(t, xp.Real(t)) for t in tops], exprs={})
        for t in texts:
            try:
                shared['exprs'][t] = uxpath.parse(t)
            except Exception:
                pass
        return shared
    shared = new()
    places = {}     # Lines of the library, and when each is run
    lines = 0

    def count(frame, what, arg):
        nonlocal lines
        if what == 'line':
            lines += 1
            places.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(lines)
        return count
    expected = []
    for n, calls in enumerate(jobs):
        if n == 0:
            # Once before, for whatever is only done the first time
            run_calls(calls, shared)
            old = sys.gettrace()
            sys.settrace(lambda frame, what, arg: count if frame.f_code.co_filename.startswith(prefixes) else None)
            try:
                expected.append(run_calls(calls, shared))
            finally:
                sys.settrace(old)
        else:
            expected.append(run_calls(calls, shared))
    with oracle():
        fine = [any(x and x[0] != 'raises' for x in e if x is not None) for e in expected]
        rec.nontrivial(lines >= 5 and all(fine))
        rec.label('lines ' + ('0-49' if lines < 50 else '50-499' if lines < 500 else '500+'), *{c[0] for j in jobs for c in j})
        rec.label('same kind' if {c[0] for c in jobs[0]} & {c[0] for j in jobs[1:] for c in j} else 'other kinds')
    if not lines:
        return
    shared = new()
    for at in case['at']:
        turns = []
        if len(at) == 1:
            # Each place is as likely as another one, not just those in the middle of loops
            times = list(places.values())[at[0] % len(places)]
            turns.append((times[at[0] // len(places) % len(times)], 1))
            at = []
        for n, x in enumerate(at):
            turns.append((max(1, x * lines // 10000), 0 if n % 2 else 1 + n // 2 % (len(jobs) - 1)))
        got = [None] * len(jobs)

        def runner(n):
            def run():
                got[n] = run_calls(jobs[n], shared)
            return run
        schedule = threads.Schedule([runner(n) for n in range(len(jobs))], turns, prefixes)
        schedule.run()
        for e in schedule.errors.values():
            raise e
        for n, calls in enumerate(jobs):
            if got[n] != expected[n]:
                with oracle():
                    k = next(i for i, (x, y) in enumerate(zip(got[n], expected[n])) if x != y)
                fail('{} in a thread gives something else than before, with {} in others (turns {}, {}):\n  got      {}\n  expected {}',
                     short(calls[k], 400), short([x for i, x in enumerate(jobs) if i != n], 400), turns, schedule.switches, short(got[n][k]), short(expected[n][k]))


def call_cases():
    tree = xp.xtrees(max_tokens=8)
    index = st.integers(0, 1)
    micro = gen.pick(gen.trees(name=gen.names(odd=False), max_tokens=8, heavy=False), xp.xtrees(max_tokens=8)).map(lambda t: gen.render(t, [0]).strip())
    html = gen.pick(htmlref.pages(), htmlref.soup(10))
    g = xp.Gen(depth=1)
    text = gen.pick(g.nodes, g.nodes0, g.any, g.any).map(xp.listed).map(lambda e: xp.render(e, xp.Style([], parens=False)))
    part = st.sampled_from(['//a', '*', '//b/a', '.', '//text()', '//@k', '(1, 2)', "('x', '1')", 'a/b', '//*'])
    one = st.sampled_from(['name()', 'string()', "'x'", '1', 'number(//a)', 'string(//@k)', '//a', 'count(*)', 'position()', "concat('u', 'v')", '2.5', "substring-after('a-b', '-')"])
    texts = [
        text, text,
        st.tuples(part, st.sampled_from(['=', '!=', '<', '>=']), part).map(' '.join), st.tuples(part, st.just('|'), part).map(' '.join),
        st.tuples(st.sampled_from(['concat', 'concat', 'contains', 'starts-with', 'substring-before', 'substring-after']), one, one).map(lambda t: '{}({}, {})'.format(*t)),
        st.tuples(st.sampled_from(['number', 'string', 'boolean', 'not', 'sum', 'string-length', 'normalize-space', 'name', 'count', 'floor', 'round', 'ceiling']), gen.pick(part, one)).map(lambda t: '{}({})'.format(*t)),
        st.tuples(part, one).map(lambda t: '{}[{}]'.format(*t)), st.tuples(part, one, one).map(lambda t: '{}[{} = {}]'.format(*t))]
    entry = st.sampled_from(['xml_xpath', 'xml_xpath-text', 'qquery', 'qquery-text', 'compute', 'compute-text'])
    text = gen.pick(*texts)
    pattern = st.lists(gen.pick(st.sampled_from(['a', 'b', '*', '**']), st.sampled_from(['a', 'b', '*', '**', ['a', 'b']])), min_size=1, max_size=3)
    kinds = [
        st.tuples(st.just('strval'), index), st.tuples(st.just('value'), index), st.tuples(st.just('encode'), index, st.sampled_from([None, '  '])),
        st.tuples(st.just('write'), index, st.sampled_from(['raw', 'namespacer'])), st.tuples(st.just('select'), index, st.sampled_from(['a', 'b', 'k'])),
        st.tuples(st.just('path'), index, pattern), st.tuples(st.just('serialize'), text),
        *[st.tuples(st.just('query'), index, entry, t, st.integers(0, 4)) for t in texts],
        st.tuples(st.just('qquery'), micro, text, st.booleans()), st.tuples(st.just('events'), micro), st.tuples(st.just('xml events'), micro),
        st.tuples(st.just('build'), micro, st.sampled_from(['micro', 'uxml', 'xml', 'lax'])), st.tuples(st.just('build'), html, st.sampled_from(['html', 'fragment'])),
        st.tuples(st.just('pretty'), micro), st.tuples(st.just('send'), micro, st.sampled_from(['micro', 'xml']), pattern),
        st.tuples(st.just('send'), html, st.just('html'), pattern), st.tuples(st.just('cast'), gen.pick(st.sampled_from(['1', ' 2.5 ', 'x', '']), st.integers(-3, 30), st.floats()), st.sampled_from(['1', '-7.25', 'y', True, 3])),
    ]

    def jobs(i):
        k = kinds[i]
        other = gen.pick(k, k, k, st.sampled_from(range(len(kinds))).flatmap(lambda j: kinds[j]))
        return st.tuples(st.lists(k.map(list), min_size=1, max_size=1), st.lists(other.map(list), min_size=1, max_size=2), st.lists(st.lists(other.map(list), min_size=1, max_size=2), max_size=1)) \
            .map(lambda t: [t[0], t[1]] + t[2])
    at = gen.pick(st.lists(st.integers(0, 9999), min_size=1, max_size=1), st.lists(st.integers(0, 9999), min_size=1, max_size=1), st.lists(st.integers(0, 2500), min_size=3, max_size=9))
    return st.tuples(st.sampled_from(range(len(kinds))).flatmap(jobs), st.lists(tree, min_size=2, max_size=2), st.lists(at, min_size=24, max_size=24)) \
        .map(lambda t: dict(jobs=t[0], trees=t[1], at=t[2]))


SUBS = [Sub('threads', cases, check, 3500, 120000), Sub('calls', call_cases, check_calls, 5000, 150000)]
