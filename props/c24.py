'''The microx command prints exactly the query results'''
import io
import os
import shutil
import sys
import tempfile
import contextlib

from hypothesis import strategies as st

from vlib import env, gen, mutate, sut, xp
from vlib.harness import Sub, oracle, fail, short

RULE = ('Random files and command lines: --expr, --match, --foreach, --limit, --partition, --html, --lax, -v, output to standard output or a file, one or more sources. exec/microx is run as '
        '__main__; its output is compared with the text computed from the trees (of --partition: those of the outermost elements, cut out of the plain tree) by evaluating the '
        'expressions one by one. Non-trivial: something is printed, and there are at least two of: several sources, foreach, limit, partition, match, html or lax.')
ASSUMPTIONS = ['Queries which raise an exception are left out', '--limit with one source and no partition', 'What expressions mean is decided by other properties (C16 to C18)']

_code = None


class Out(io.StringIO):
    def close(self):
        pass


def run_microx(argv):
    '''Standard output'''
    global _code
    path = os.path.join(env.REPO, 'exec', 'microx')
    if _code is None:
        with open(path, encoding='utf-8') as fp:
            _code = compile(fp.read(), path, 'exec')
    out = Out()
    saved = sys.argv
    sys.argv = ['microx'] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                exec(_code, {'__name__': '__main__', '__file__': path})
            except SystemExit as e:
                if e.code not in (None, 0):
                    fail('microx {} exits with {}', argv, e.code)
    finally:
        sys.argv = saved
    return out.getvalue()


def outermost(tree, name):
    if tree[0] == name:
        return [tree]
    return [t for c in tree[2] if not isinstance(c, str) for t in outermost(c, name)]


def elements(top):
    return [n for _, n in sut.nodes(top) if not isinstance(n, str)]


def lines(item):
    from amara3.uxml.tree import node, element
    if isinstance(item, node) and not isinstance(item, (element, str)) and item.xml_parent is None:
        item = item.xml_children[0]     # Root node
    return (item.xml_encode() if isinstance(item, node) else str(item)) + '\n'


def query(case, top, limit):
    '''Text for one document. limit is a list of one number, to be counted down'''
    from amara3.uxml.uxpath import context, parse
    if case['command'] == 'find-text':
        return find_text(case, top)
    expr = parse(case['expr_text'])
    each = parse(case['each_text']) if case['each_text'] else None
    items = []
    if case['command'] == 'expr':
        items = list(expr.compute(context(top)))
    else:
        for e in elements(top):
            items.extend(expr.compute(context(e, force_root=False)))
    if limit is not None:
        items = items[:limit]
    out = []
    for i in items:
        for j in (each.compute(context(i, force_root=False)) if each else [i]):
            out.append(lines(j))
    return ''.join(out), len(items)


def find_text(case, top):
    '''Paths of the elements with a text node which has the text in it, once for each such node'''
    out = []
    nodes = dict(sut.nodes(top))
    for path, e in nodes.items():
        if isinstance(e, str):
            continue
        for c in e.xml_children:
            if isinstance(c, str) and case['find'] in str(c):
                steps = []
                for i in range(len(path) + 1):
                    x = nodes[path[:i]]
                    steps.append(x.xml_name + ''.join('[@{}="{}"]'.format(a, x.xml_attributes[a]) for a in case['show'] if a in x.xml_attributes))
                out.append('/'.join(steps) + '\n')
    return ''.join(out), len(out)


class Skip(Exception):
    pass


def trees_of(case, source):
    from amara3.uxml import html5, xml
    from amara3.uxml.tree import element
    if case['mode'] == 'html':
        return [html5.parse(source['text'])]
    if case['mode'] == 'lax':
        top = html5.parse_lax_xml(source['text'])
        if not isinstance(top, element):
            raise Skip
        return [top]
    # The parser may divide text into several nodes
    top = xml.treebuilder().parse(source['text'])
    if case['partition']:
        return [sut.make(t) for t in outermost(sut.dump(top), case['partition'])]
    return [top]


def check(case, rec):
    rec.is_nontrivial = False
    with oracle():
        case = dict(case)
        for key, e in (('expr_text', case['expr']), ('each_text', case['each'])):
            case[key] = (e[1] if e[0] == 'text' else xp.render(e, xp.Style(case['style']))) if e else None
        if case['mode'] != 'xml':
            case['partition'] = None
        if len(case['sources']) > 1 or case['partition']:
            case['limit'] = None
        texts = []
        for s in case['sources']:
            texts.append(s['text'] if case['mode'] != 'xml' else gen.render(gen.normal(s['tree']), s['layout']))
        # What blows up is left out
        for s in case['sources']:
            if case['mode'] == 'xml':
                m = xp.Model(gen.normal(s['tree']))
                for e in (case['expr'], case['each']):
                    for n in m.order:
                        try:
                            if e and e[0] != 'text':
                                xp.Eval(m).run(e, n)
                        except xp.TooBig:
                            return
                        except xp.Ambiguous:
                            pass
        if case['mode'] != 'xml' and any('//' in (case[k] or '') for k in ('expr_text', 'each_text')) and sum(map(len, texts)) > 300:
            return
    try:
        expected, count = [], 0
        keep = []
        for s, text in zip(case['sources'], texts):
            for top in trees_of(case, dict(s, text=text)):
                keep.append(top)
                out, n = query(case, top, case['limit'])
                expected.append(out)
                count += n
    except Skip:
        return
    except Exception as e:
        rec.label('raises ' + type(e).__name__)
        return
    expected = ''.join(expected)
    d = tempfile.mkdtemp(dir=env.scratch())
    try:
        argv = []
        for i, t in enumerate(texts):
            name = os.path.join(d, 'f{}.xml'.format(i))
            with open(name, 'w', encoding='utf-8', newline='') as fp:
                fp.write(t)
            argv.append(name)
        opts = ['--{}={}'.format(case['command'], case['find'] if case['command'] == 'find-text' else case['expr_text'])]
        if case['command'] == 'find-text' and case['show']:
            opts.append('--show-attrs=' + ','.join(case['show']))
        if case['each']:
            opts.append('--foreach=' + case['each_text'])
        if case['limit'] is not None and case['command'] != 'find-text':
            opts += [case['limit_opt'] + '=' + str(case['limit'])] if case['limit_opt'].startswith('--') else [case['limit_opt'], str(case['limit'])]
        if case['partition']:
            opts.append('--partition=' + case['partition'])
        if case['mode'] != 'xml':
            opts.append('--' + case['mode'])
        if case['verbose']:
            opts.append('-v')
        outfile = os.path.join(d, 'out.txt')
        if case['to_file']:
            opts += ['-o', outfile]
        argv = argv + opts if case['order'] else opts + argv
        got = run_microx(argv)
        if case['to_file']:
            if got:
                fail('microx {} prints {!r} in spite of -o', opts, short(got))
            with open(outfile, newline='') as fp:
                got = fp.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if got != expected:
        fail('microx {} on {}\n  prints   {!r}\n  expected {!r}', opts, short(texts), short(got), short(expected))
    if expected:
        features = [f for f, on in (('several sources', len(texts) > 1), ('foreach', case['each']), ('limit', case['limit'] is not None), ('partition', case['partition']),
                                    ('match', case['command'] == 'match'), ('find text', case['command'] == 'find-text'), ('attributes shown', case['command'] == 'find-text' and case['show']), (case['mode'], case['mode'] != 'xml')) if on]
        rec.label(*features)
        rec.label('{} lines'.format(min(3, expected.count('\n'))))
        rec.is_nontrivial = len(features) > 1


NAMES = ['a', 'b', 'c', 'é']
HNAMES = ['p', 'b', 'div', 'a', 'i']


def source(mode):
    if mode == 'xml':
        return st.fixed_dictionaries(dict(tree=xp.xtrees(names=NAMES, max_tokens=14, values=xp.VALUES + ['<', '&', 'x\ny', 'Ж', '"']), layout=gen.tapes(10)))
    doc = st.tuples(gen.trees(name=st.sampled_from(HNAMES), aname=st.sampled_from(['k', 'id', 'href']), value=st.sampled_from(xp.VALUES), text=st.sampled_from(['x', '1', ' ', 'y\nz', '<']), max_tokens=8, heavy=False),
                    gen.tapes(6), gen.pick(st.just([]), mutate.edits())).map(lambda t: mutate.apply(gen.render(t[0], t[1]), t[2]))
    # Characters which can not be in an UTF-8 file, or are changed by universal newlines
    return st.fixed_dictionaries(dict(text=doc.map(lambda s: ''.join(c for c in s if not '\ud800' <= c <= '\udfff' and c not in '\r\x00'))))


def cases_for(mode):
    names = NAMES if mode == 'xml' else HNAMES + ['html', 'body']
    g = xp.Gen(names=names, attrs=xp.ATTRS if mode == 'xml' else ['k', 'id', 'href'], node_vars=(), value_vars=(), depth=1, values=xp.VALUES)
    name = st.sampled_from(names).map(lambda n: ['rel', [['', ['step', 'child', n]]]])
    every = st.sampled_from(names).map(lambda n: ['abs', '//', ['rel', [['', ['step', 'child', n]]]]])
    some = st.sampled_from(['/', '.', '//@*', '//*', '@k', '*', 'text()', '..', '//text()', 'descendant::*', '//*[@k]', '//*[1]', '(@k|*)', '//*[text()]', 'node()']).map(lambda s: ['text', s])
    nodes = gen.pick(g.nodes, g.rel, name, name, every, every, some, some)
    inner = gen.pick(g.rel, name, st.sampled_from([['call', 'string', []], ['rel', [['', ['step', 'attribute', '*']]]], ['call', 'name', []], ['call', 'count', [['rel', [['', ['step', 'child', 'node()']]]]]],
                                                  ['call', 'concat', [['call', 'name', []], ['str', ': '], ['call', 'string', []]]], ['rel', [['', ['.']]]], ['rel', [['', ['..']], ['/', ['step', 'child', '*']]]]]), g.any)
    return st.fixed_dictionaries(dict(
        mode=st.just(mode), sources=st.lists(source(mode), min_size=1, max_size=3), command=st.sampled_from(['expr', 'expr', 'match', 'match', 'find-text']), find=st.sampled_from(['x', 'x', 'y', '1', '.', 'X', ' ', '\n', 'é', 'xy', '<', 'Ж', '*', '']).filter(bool),
        show=gen.pick(st.just([]), st.lists(st.sampled_from(xp.ATTRS + ['href', 'nope']), max_size=3, unique=True)),
        expr=gen.pick(nodes, nodes, nodes, g.any).map(xp.listed), each=gen.pick(st.none(), inner.map(xp.listed)), limit=gen.pick(st.none(), st.integers(0, 5), st.integers(1, 3)),
        limit_opt=st.sampled_from(['--limit', '-l', '-c']), partition=gen.pick(st.none(), st.sampled_from(names)), verbose=st.sampled_from([False, False, False, True]),
        to_file=st.booleans(), order=st.booleans(), style=gen.tapes(8)))


SUBS = [
    Sub('xml', lambda: cases_for('xml'), check, 4000, 80000),
    Sub('html', lambda: cases_for('html'), check, 800, 20000),
    Sub('lax', lambda: cases_for('lax'), check, 800, 20000),
]
FUEL_PREFIXES = ()
