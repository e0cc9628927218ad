'''The MicroXML scanner tokenises documents without loss, run after run'''
import contextlib
import io

from hypothesis import strategies as st

from vlib import gen, mutate
from vlib.harness import Sub, oracle, fail, short

RULE = ('Random documents with comments, all kinds of references, line ends and white space are written out piece by piece together with their tokens; histories of runs, complete, '
        'abandoned after some tokens, or on malformed text. Each run on a well-formed document must give its tokens. Non-trivial: the document has attributes, references or '
        'comments, and comes after an abandoned or malformed run (sub-check histories). huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['How text is divided into tokens is free', 'Runs one after the other: the lexer is one for all', 'Comments have no markup characters, attribute values no raw >']

ENT = {'<': 'LT_ENT', '>': 'GT_ENT', '&': 'AMP_ENT', '"': 'QUOT_ENT', "'": 'APOS_ENT'}


def chars(s, quote, t, src, toks):
    for i, c in enumerate(s):
        k = t.pick(range(16))
        if (c in '<>&' or c == quote) and k < 10 or c in ENT and k == 14:
            src.append(gen.NAMED[c])
            toks.append([ENT[c], gen.NAMED[c]])
        elif c in '<>&' or c == quote or k == 15:
            ref = gen.hexref(c, t)
            src.append(ref)
            toks.append(['NUM_ENT', ref[3:-1]])
        else:
            raw = c
            if c == '\n' and k > 9 and s[i + 1:i + 2] != '\n' and src[-1] != '\r':
                raw = '\r\n' if k < 12 else '\r'
            src.append(raw)
            toks.append(['CHARDATA', c])


WS = ['', '', '', ' ', '\n', '\t', '  ', '\r\n', '\n ', '\r']
WS1 = [' ', ' ', '\n', '\t', '  ', '\r\n', ' \t']


def document(tree, tape):
    t = gen.Tape(tape)
    src, toks = [], []

    def comment(where):
        if t.pick(range(5)) == 4:
            c = t.pick(['', ' c ', 'x', ' a - b', "it's \"x\"", '\n', 'é', ' =;#x', 'A'])
            src.append('<!--' + c + '-->')
            toks.append(['COMMENT', c])

    def space():
        ws = t.pick(['', '', ' ', '\n', ' \t'])
        if ws:
            src.append(ws)
            toks.append(['CHARDATA', ws])

    def element(e):
        src.append('<' + e[0])
        toks.append(['STARTTAG', e[0]])
        for k, v in e[1]:
            q = t.pick('"\'')
            src.append(t.pick(WS1) + k + t.pick(WS) + '=' + t.pick(WS) + q)
            quote = ['DBL_QUOTE' if q == '"' else 'SGL_QUOTE', q]
            toks.extend([['NAME', k], ['EQ', '='], quote])
            chars(v, q, t, src, toks)
            src.append(q)
            toks.append(quote)
        src.append(t.pick(WS) + '>')
        toks.append(['GT', '>'])
        comment(e)
        for c in e[2]:
            if isinstance(c, str):
                chars(c, None, t, src, toks)
            else:
                element(c)
            comment(e)
        src.append('</' + e[0] + t.pick(WS) + '>')
        toks.append(['ENDTAG', e[0]])
    space()
    comment(None)
    element(tree)
    comment(None)
    space()
    return ''.join(src), merge(toks)


def merge(toks):
    out = []
    for k, v in toks:
        if k == 'CHARDATA' and out and out[-1][0] == 'CHARDATA':
            out[-1] = ['CHARDATA', out[-1][1] + v]
        else:
            out.append([k, v])
    return out


def check(case, rec):
    from amara3.uxml import lex
    rec.is_nontrivial = False
    disturbed = len(case['runs']) == 1
    kept = []
    with contextlib.redirect_stderr(io.StringIO()):
        for kind, what, n in case['runs']:
            if kind == 'bad':
                disturbed = True
                rec.label('on malformed text')
                try:
                    it = lex.run(what)
                    kept.append(it)
                    for i, tok in enumerate(it):
                        if n is not None and i >= n:
                            break
                except Exception:
                    pass
                continue
            with oracle():
                src, expected = document(what['tree'], what['tape'])
            it = lex.run(src)
            kept.append(it)
            got = []
            complete = True
            for tok in it:
                got.append([tok.type, tok.value])
                if n is not None and len(got) >= n:
                    complete = False
                    break
            got = merge(got)
            if not complete:
                rec.label('abandoned')
                with oracle():
                    want = expected[:len(got)]
                    if want and got and got[-1][0] == 'CHARDATA' == want[-1][0] and want[-1][1].startswith(got[-1][1]):
                        got[-1] = want[-1]
            else:
                want = expected
            if got != want:
                for i in range(max(len(got), len(want))):
                    if got[i:i + 1] != want[i:i + 1]:
                        break
                fail('run {} on {!r}: token {} is {}, expected {}', len(kept), short(src), i, got[i:i + 1], want[i:i + 1])
            kinds = {k for k, _ in want}
            rec.label(*kinds)
            if disturbed and kinds & {'NAME', 'COMMENT', 'NUM_ENT', 'LT_ENT', 'AMP_ENT'}:
                rec.is_nontrivial = True
            disturbed = disturbed or not complete


def good(names=True, max_tokens=12):
    value = gen.texts(max_chunks=4)
    extra = st.lists(st.sampled_from(['\t', '\n', 'x', '"', "'", '&', '<', '>', ' ', '#', ';', '=', 'é', '\ud7ff', '\U0010fffd', '\x7e', '\xa0']), max_size=6).map(''.join)
    t = gen.trees(name=gen.names(names), aname=gen.names(names), value=gen.pick(value, extra), text=gen.pick(gen.texts(min_chunks=1), extra).filter(bool), max_tokens=max_tokens, heavy=False)
    return st.fixed_dictionaries(dict(tree=t, tape=gen.tapes(24)))


def single():
    return st.tuples(good(max_tokens=16)).map(lambda t: dict(runs=[['good', t[0], None]]))


def huge():
    return st.tuples(good(max_tokens=4), gen.huge_ops()).map(lambda t: dict(runs=[['good', dict(t[0], tree=gen.huge(t[0]['tree'], t[1])), None]]))


def histories():
    n = gen.pick(st.none(), st.integers(0, 14))
    run = gen.pick(st.tuples(st.just('good'), good(max_tokens=6), n), st.tuples(st.just('good'), good(max_tokens=6), n),
                   st.tuples(st.just('bad'), gen.pick(mutate.soup(), mutate.mutated(), st.sampled_from(['<a b="', "<a b='x", '<a ', '<a', '<a b', '<!--', '&', '&#x', '\x00', '<a b="&', '\ufeff<a>'])), n))
    return st.fixed_dictionaries(dict(runs=st.lists(run, min_size=2, max_size=6).map(lambda r: [list(x) for x in r])))


SUBS = [
    Sub('documents', single, check, 4000, 120000),
    Sub('huge', huge, check, 150, 4000),
    Sub('histories', histories, check, 3000, 80000),
]
