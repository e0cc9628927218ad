'''Malformed MicroXML is rejected, promptly and without losing anything'''
import re
from hypothesis import strategies as st

from vlib import gen, sut, mutate, ref_mx
from vlib.harness import Sub, oracle, same, fail, short
from props.c01 import parse_events, coroutine_events

RULE = ('Texts: rendered documents with one or two edits; all truncations of documents; sequences of markup tokens; any characters; '
        'single illegal characters and references put into each place. A reference recogniser tells for each whether it must be '
        'accepted (with these events), must be rejected, or may be rejected or else have these events. '
        'Non-trivial: must be rejected. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['Comments, empty-element tags, a BOM, raw ">" and raw line ends in values, and missing or extra white space in tags '
               'may be rejected or accepted']


def squeeze(evs):
    '''Attribute values with raw white space may be normalised'''
    out = []
    for ev in evs:
        if ev[0] == 'start':
            ev = ['start', ev[1], [[k, v.replace('\r\n', ' ').replace('\r', ' ').replace('\n', ' ').replace('\t', ' ')] for k, v in ev[2]], ev[3]]
        out.append(ev)
    return out


def judge_all(src, rec=None):
    with oracle():
        verdict, expected = ref_mx.judge(src)
        if rec:
            rec.label('must ' + verdict if verdict != 'either' else 'either')
            rec.nontrivial(verdict == 'reject')
    from amara3.uxml import tree
    for what, f in (('parse', parse_events), ('parser with a handler', coroutine_events), ('tree.parse', tree.parse)):
        try:
            got = f(src)
        except Exception as e:
            if verdict == 'accept':
                fail('{} rejects the well-formed document {!r}: {!r}', what, short(src), e)
            continue
        if verdict == 'reject':
            fail('{} accepts {!r} ({}): {}', what, short(src), expected, short(got))
        if f is tree.parse:
            if got is None and not expected:
                continue
            got = gen.events(gen.normal(sut.dump(got)))
        else:
            got = sut.merge_text(got)
        if verdict == 'either':
            same('{} of {!r}'.format(what, short(src)), squeeze(got), squeeze(expected))
        else:
            same('{} of {!r}'.format(what, short(src)), got, expected)


def check(case, rec):
    judge_all(case['src'], rec)


def check_truncations(case, rec):
    src = case['src']
    body = len(src.rstrip(ref_mx.WS))
    rec.nontrivial(body > 8)
    for i in range(1, body):
        judge_all(src[:i])
    for i in range(1, len(src)):
        judge_all(src[i:])


def check_place(case, rec):
    '''A piece of text at a place where only some are legal'''
    judge_all(PLACES[case['place'] % len(PLACES)].replace('@', case['piece'], 1), rec)
    rec.label('place {}'.format(case['place'] % len(PLACES)))


PLACES = ['<a>@</a>', '<a>x@y</a>', '<a b="@"></a>', "<a b='@'></a>", '<@></@>', '<a@></a@>', '<a @="1"></a>', '<a b@="1"></a>', '@<a></a>',
          '<a></a>@', '<a @></a>', '<a></a @>', '<a b=@"1"></a>', '<a b@="1"></a>', '<a>&@;</a>', '<a>&#@;</a>', '<a>&#x@;</a>', '<a b="&@;"></a>',
          '<a b="&#x@;"></a>', '<@a></a>', '<a></@a>', '<a b="1"@c="2"></a>', '<a><b>@</b></a>', '<a>@<b></b></a>', '<a>&lt;@&gt;</a>', '<a b="1" @="2"></a>',
          '<a></@>', '<a><@></a>', '<a>&am@p;</a>', '<a>&#x4@1;</a>', '<a@b="1"></a>', '<@a b="1"></a>', '<a b="@', '<a>@', '<a @', '@']

SPECIAL = [chr(n) for n in list(range(0x20)) + [0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xb7, 0xd7, 0xf7, 0x37e, 0x300, 0x36f, 0x203f, 0x2040, 0x2041,
                                               0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfffd, 0xfffe, 0xffff, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfeff,
                                               0x1fffd, 0x1fffe, 0x1ffff, 0x2fffe, 0x10fffd, 0x10fffe, 0x10ffff, 0x200c, 0x200d, 0x2070, 0x2c00, 0x3001]] + \
    [chr(n) for n in range(0x20, 0x7f)] + ['0', '9', '10', '41', '00041', '1F600', 'D800', 'FFFE', '10FFFF', '10FFFD', '110000', 'FFFFFFFFFF', '0', 'D', 'd', 'A', '9', '7f', '85', 'fdd0',
                                           'lt', 'gt', 'amp', 'quot', 'apos', 'LT', 'nbsp', 'x', 'X41', 'x 41', '-1', '+1', '1_0', '0x41', 'g', 'b', 'c', 'a', 'ab', 'a b',
                                           'b="1"', "b='1'", 'b', 'b=1', '<', '<b></b>', '<!--x-->', '<!--x--y-->', '<?x?>', '<![CDATA[x]]>', ']]>', '&amp;', '&', '&amp', '',
                                           'b="1"c="2"', 'a b="1" b="1"', '\u0661', '４１', '\u0100']


def texts():
    return gen.pick(mutate.mutated(), mutate.mutated(), mutate.soup(),
                     st.lists(st.sampled_from('<></a b="\'&;#x41 \n'), max_size=20).map(''.join),
                     st.text(max_size=12), st.text(max_size=8).map(lambda s: '<a>' + s + '</a>'))


def huge():
    '''Documents with very large parts, spoilt at a place which need not be near the beginning'''
    pos = st.integers(0, 10 ** 6)
    edit = gen.pick(st.tuples(st.sampled_from(['tag', 'tag', 'endtag', 'endtag', 'dupattr', 'dupattr', 'untag']), pos, pos),
                    mutate.edits().map(lambda e: e[0]), st.tuples(st.just('cut'), pos, st.just(0)))
    return st.tuples(gen.trees(max_tokens=4, heavy=False, max_attrs=2), gen.huge_ops('text text value name name aname children attributes deep'), gen.pick(edit.map(lambda e: [e]), edit.map(lambda e: [e]), st.lists(edit, min_size=1, max_size=2), st.just([])), st.booleans()).map(spoilt)


def spoilt(t):
    tree, ops, edits, reverse = t
    src = gen.render(gen.huge(tree, ops), [])
    for kind, p, q in edits:
        if kind in ('tag', 'endtag', 'untag'):
            # The end of the name in a tag is changed, or the tag is left out
            found = [m for m in re.finditer('<(/?)([^\\s<>/]+)', src) if kind != 'endtag' or m.group(1)]
            if reverse:
                found = found[-3:]
            m = found[p % len(found)] if found else None
            if m and kind == 'untag':
                src = src[:m.start()] + src[m.end():].partition('>')[2]
            elif m:
                src = src[:m.end() - q % 2] + 'xyz'[q % 3] + src[m.end():]
        elif kind == 'dupattr':
            # An attribute is repeated
            found = list(re.finditer(r' ([^\s=<>]+)=("[^"]*"|\'[^\']*\')', src))
            if found:
                m = found[p % len(found)]
                src = src[:m.end()] + m.group() + src[m.end():]
        else:
            src = mutate.apply(src, [(kind, len(src) - p % 4001 if reverse and kind != 'swap' and len(src) > 4000 else p, q)])
    return dict(src=src)


TRUNC = ['<a b="x&#x41;y" c=\'&quot;\'>t&amp;u&#x0042;<b ></b\n>\r\nv</a> ', ' <a\nb = "1"\tc= \'2\'><a-b.c x=""></a-b.c></a>']

SUBS = [
    Sub('texts', lambda: st.fixed_dictionaries(dict(src=texts())), check, 12000, 400000),
    Sub('truncations', lambda: st.fixed_dictionaries(dict(src=st.tuples(gen.trees(max_tokens=4, heavy=False, max_attrs=2), gen.tapes())
                                                     .map(lambda t: gen.render(*t)).filter(lambda s: len(s) < 150))),
        check_truncations, 800, 20000, examples=[dict(src=s) for s in TRUNC]),
    Sub('huge', huge, check, 600, 12000),
    Sub('places', lambda: st.fixed_dictionaries(dict(place=st.integers(0, len(PLACES) - 1),
                                                     piece=gen.pick(st.sampled_from(SPECIAL), st.characters(exclude_categories=[])))),
        check_place, 3000, 60000, examples=[dict(place=p, piece=s) for p in range(len(PLACES)) for s in dict.fromkeys(SPECIAL)]),
]
