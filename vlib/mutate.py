'''Malformed and nearly well-formed documents'''
from hypothesis import strategies as st

from . import gen

TOKENS = ['<', '>', '</', '/', '=', '"', "'", '&', ';', '&#x', '&#', '&lt;', '&amp;', '&#x41;', '&#x0;', '&#10;', '&foo;', '&#xD;',
          '&#xFFFE;', '&#x110000;', '&#x ;', '&;', '&lt', '<a>', '</a>', '<b>', '</b>', '<a b="c">', 'a', 'b', 'a="1"', " b='2'", ' ', '\n',
          '\t', '\r', 'x', '<!-- c -->', '<?p i?>', '<![CDATA[x]]>', '<!DOCTYPE a>', '<a/>', ']]>', '\x00', '\x01', '\x7f', '\ufffe',
          '\ufeff', '-', '.', '1', ':', 'a:b', 'é', '×', '<>', '</>', '< a>', '</ a>', '< /a>', '&#X41;', '&LT;', '&#x4g;', '\u0085', '\u2028',
          '\xa0', '<a b>', '<a b=>', '<a =b>', '<a b=c>', '<1>', '<-a>', '<a "b">', '&nbsp;', '&apos', '\ud800', '\ufdd0', '\U0001ffff']


def soup():
    return st.lists(st.sampled_from(TOKENS), max_size=12).map(''.join)


def edits():
    '''List of edits to apply to a text'''
    pos = st.integers(0, 4000)
    return st.lists(gen.pick(
        st.tuples(st.just('del'), pos, st.integers(1, 3)),
        st.tuples(st.just('ins'), pos, st.sampled_from(TOKENS)),
        st.tuples(st.just('rep'), pos, st.sampled_from(TOKENS)),
        st.tuples(st.just('dup'), pos, st.integers(1, 8)),
        st.tuples(st.just('swap'), pos, pos),
        st.tuples(st.just('cut'), pos, st.just(0)),
        st.tuples(st.just('insany'), pos, st.integers(0, 0x10ffff).map(chr)),
        st.tuples(st.just('markup'), pos, st.sampled_from(TOKENS)),
        st.tuples(st.just('markdel'), pos, st.just(1)),
    ), min_size=1, max_size=2)


def apply(src, ops):
    for kind, pos, arg in ops:
        if not src:
            return src
        p = pos % (len(src) + 1)
        if kind == 'del':
            src = src[:p] + src[p + arg:]
        elif kind in ('ins', 'insany'):
            src = src[:p] + arg + src[p:]
        elif kind == 'rep':
            src = src[:p] + arg + src[p + 1:]
        elif kind == 'dup':
            src = src[:p] + src[p:p + arg] + src[p:]
        elif kind == 'swap':
            q = arg % len(src)
            p = p % len(src)
            p, q = min(p, q), max(p, q)
            if p != q:
                src = src[:p] + src[q] + src[p + 1:q] + src[p] + src[q + 1:]
        elif kind == 'cut':
            src = src[:p]
        elif kind in ('markup', 'markdel'):
            # At one of the markup characters
            marks = [i for i, c in enumerate(src) if c in '<>/="\'&;']
            if marks:
                m = marks[pos % len(marks)]
                src = src[:m] + (arg if kind == 'markup' else '') + src[m + 1:]
    return src


def mutated(trees=None):
    '''(source, malformed?) A rendered document with some edits'''
    trees = gen.trees(max_tokens=6, heavy=False) if trees is None else trees
    return st.tuples(trees, gen.tapes(10), edits()).map(lambda t: apply(gen.render(t[0], t[1]), t[2]))
