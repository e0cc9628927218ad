'''How a document is cut into fragments never changes what is parsed'''
from hypothesis import strategies as st

from vlib import gen, sut, mutate
from vlib.harness import Sub, oracle, same, fail, short
from props.c01 import parse_events

RULE = ('A text (rendered from a random tree; such a text with edits; or a sequence of markup tokens) and how to cut it (random '
        'cuts with empty fragments, every character on its own, or each single position in turn); and long texts, values, names and gaps cut around their end. Non-trivial: accepted text '
        'with at least two non-empty fragments, or rejected text of at least three characters.')
ASSUMPTIONS = ['The outcome of parsing in one go is the reference here; C01 and C03 decide whether it is right']


def one_go(src):
    try:
        return parse_events(src)
    except Exception:
        return None


def by_parsefrags(frags):
    from amara3.uxml.parser import parsefrags
    try:
        return [sut.event_json(ev) for ev in parsefrags(frags) if ev is not None]
    except Exception:
        return None


def by_coroutine(frags, last_with_done):
    from amara3.uxml.parser import parser
    acc = []
    try:
        p = parser(sut.collector(acc))
        for i, frag in enumerate(frags):
            p.send((frag, last_with_done and i == len(frags) - 1 and bool(frag)))
        if not (last_with_done and frags and frags[-1]):
            p.send(('', True))
        p.close()
    except Exception:
        return None
    return acc


def pieces(src, case):
    mode = case['mode']
    n = len(src)
    if mode == 'chars':
        size = 1 if n <= 300 else n // 150
        return [src[i:i + size] for i in range(0, n, size)]
    if mode == 'size':
        size = max(1 + case['cuts'][0] % 7 if case['cuts'] else 2, n // 150)
        return [src[i:i + size] for i in range(0, n, size)]
    marks = [i for i, c in enumerate(src) if c in '<>/="\'&;# \r\n' or c > '\x7f']
    at = sorted((marks[c // 3 % len(marks)] + c % 2 if marks and mode == 'marks' else c % (n + 1)) for c in case['cuts'])
    at = [0] + at + [n]
    return [src[a:b] for a, b in zip(at, at[1:])]


def check(case, rec):
    src = case['src']
    expected = one_go(src)
    with oracle():
        frags = pieces(src, case)
        assert ''.join(frags) == src
        real = [f for f in frags if f]
        rec.label('accepted' if expected is not None else 'rejected', 'mode ' + case['mode'])
        if len(real) < len(frags):
            rec.label('empty fragments')
        if len(src) > 1000:
            rec.label('longer than 1000')
        rec.nontrivial(len(real) > 1 and (expected is not None or len(src) > 2))
    what = 'for {} in fragments {}'.format(short(repr(src), 300), short(repr(frags), 300))
    same('parsefrags ' + what, by_parsefrags(frags), expected)
    same('parser ' + what, by_coroutine(frags, False), expected)
    same('parser, final fragment marked as such, ' + what, by_coroutine(frags, True), expected)


def check_each(case, rec):
    '''All cuts in two, and in three with a short middle part'''
    src = case['src']
    expected = one_go(src)
    rec.label('accepted' if expected is not None else 'rejected')
    rec.nontrivial(len(src) > 2)
    for i in range(len(src) + 1):
        for j in {i, min(i + 1, len(src)), min(i + case['gap'], len(src))}:
            frags = [src[:i], src[i:j], src[j:]]
            same('parsefrags for {!r} in fragments {!r}'.format(src, frags), by_parsefrags(frags), expected)


def cases():
    texts = gen.pick(
        st.tuples(gen.trees(max_tokens=8), gen.tapes()).map(lambda t: gen.render(*t)),
        st.tuples(gen.trees(max_tokens=8), gen.tapes()).map(lambda t: gen.render(*t)),
        mutate.mutated(), mutate.soup())
    return st.fixed_dictionaries(dict(src=texts, mode=st.sampled_from(['cuts', 'marks', 'chars', 'size', 'marks']),
                                      cuts=st.lists(st.integers(0, 3000), min_size=1, max_size=8)))


def each_cases():
    texts = gen.pick(
        st.tuples(gen.trees(max_tokens=4, heavy=False, max_attrs=2), gen.tapes()).map(lambda t: gen.render(*t)),
        mutate.mutated(gen.trees(max_tokens=3, heavy=False, max_attrs=2)), mutate.soup()).filter(lambda s: len(s) < 120)
    return st.fixed_dictionaries(dict(src=texts, gap=st.integers(2, 6)))


SIZES = [100, 127, 128, 255, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 16384, 32768, 65536]
TAIL = ['&amp;', '&#x41;', '&#x0001F600;', '&lt;', '\r\n', '\r', '\n', 'x', 'y z', '\U0001f600', "'", '&bad;', '>']


def check_long(case, rec):
    '''A long text, attribute value, name or white space, with cuts around its end'''
    n = case['size'] + case['off']
    fill = (case['fill'] * (n // len(case['fill']) + 1))[:n]
    tail = ''.join(TAIL[i] for i in case['tail'])
    if case['where'] == 'value':
        parts = ['<a b="', re_value(fill), re_value(tail), '" c="1"><b></b>x</a>']
    elif case['where'] == 'text':
        parts = ['<a><c></c>', fill, tail, '<b></b>x</a>']
    elif case['where'] == 'name':
        parts = ['<', 'n' * n, '-.', '>x</' + 'n' * n + '-.>']
    elif case['where'] == 'tag':
        parts = ['<a', ' ' * n, ' b="1"', '\n>x</a>']
    else:
        parts = ['<a>', ''.join('<b i="{}">{}</b>'.format(i, case['fill'] * 3) for i in range(n % 1500)), tail, '</a>']
    src = ''.join(parts)
    near = len(parts[0]) + len(parts[1])
    at = sorted({min(max(0, near + c), len(src)) for c in case['near']} | {c * len(src) // 1000 for c in case['far']})
    at = [0] + at + [len(src)]
    frags = [src[a:b] for a, b in zip(at, at[1:])]
    expected = one_go(src)
    rec.label('accepted' if expected is not None else 'rejected', case['where'])
    if n > 4000:
        rec.label('longer than 4000')
    rec.nontrivial(n > 200)
    what = '{} cut at {}'.format(short(src, 200), at)
    same('parsefrags of ' + what, by_parsefrags(frags), expected)
    same('parser on ' + what, by_coroutine(frags, True), expected)


def re_value(s):
    return s.replace('\r', ' ').replace('\n', ' ').replace('"', "'").replace('>', ' ')


def long_cases():
    return st.fixed_dictionaries(dict(
        size=st.sampled_from(SIZES), off=st.integers(-4, 4), fill=st.sampled_from(['x', 'xy z', 'ab\n', 'x&amp;', '\r\n', '&#x41;']),
        where=st.sampled_from(['text', 'text', 'text', 'value', 'value', 'name', 'tag', 'elements']),
        tail=st.lists(st.integers(0, len(TAIL) - 1), max_size=4), near=st.lists(st.integers(-6, 24), min_size=1, max_size=4),
        far=st.lists(st.integers(0, 1000), max_size=2)))


DOCS = ['<a b="x&#x41;y" c=\'&quot;\'>t&amp;u&#x0042;<b ></b\n>\r\nv\r</a> ', ' <a\nb = "1"\tc= \'2\'><a-b.c x=""></a-b.c></a>',
        '<a b="1" b="2"></a>', '<a>x</b>', '<a>&bad;</a>', '<a></a><b></b>', '<a>x\r\r\n\ny</a>', 'x<a></a>']

SUBS = [
    Sub('random', cases, check, 9000, 250000),
    Sub('long', long_cases, check_long, 2500, 40000),
    Sub('every-cut', each_cases, check_each, 1500, 40000, examples=[dict(src=d, gap=3) for d in DOCS]),
]
