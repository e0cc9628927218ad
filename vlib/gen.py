'''
Generators of names, texts, trees and MicroXML source. All give plain JSON data.

An element is [name, [[attribute name, value], ...], [child, ...]], a text is a str.
'''
from hypothesis import strategies as st


def pick(*strategies):
    '''Like one_of (which drops repeated strategies, and flattens nested ones), but each argument is as likely as the others'''
    if len(strategies) == 1 and isinstance(strategies[0], list):
        strategies = strategies[0]
    return st.one_of(*[st.tuples(s).map(_first) for s in strategies])


def _first(t):
    return t[0]


# Character classes, from the MicroXML specification, as ranges

NAME_START = [(0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff),
              (0x370, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef),
              (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd)] + \
             [(p << 16, (p << 16) + 0xfffd) for p in range(1, 15)]
NAME_EXTRA = [(0x2d, 0x2e), (0x30, 0x39), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)]
CHARS = [(0x9, 0xa), (0x20, 0x7e), (0xa0, 0xd7ff), (0xe000, 0xfdcf), (0xfdf0, 0xfffd)] + \
        [(p << 16, (p << 16) + 0xfffd) for p in range(1, 17)]


def in_ranges(c, ranges):
    n = ord(c)
    return any(a <= n <= b for a, b in ranges)


def is_name_start(c):
    return in_ranges(c, NAME_START)


def is_name_char(c):
    return in_ranges(c, NAME_START) or in_ranges(c, NAME_EXTRA)


def is_char(c):
    return in_ranges(c, CHARS)


def range_chars(ranges):
    '''A character of the ranges: mostly their boundaries'''
    bounds = sorted({chr(n) for r in ranges for n in r})
    return pick(st.sampled_from(bounds),
                     st.sampled_from(ranges).flatmap(lambda r: st.integers(*r)).map(chr))


SIMPLE_NAMES = ['a', 'b', 'c', 'd', 'x', 'y']
ODD_NAMES = ['_', 'a-b', 'a.b', 'a1', 'x-', 'x.', 'A', 'or', 'and', 'div', 'mod', 'self', 'text', 'node', 'child',
             'parent', 'ancestor-or-self', 'xml', 'xmlns', 'é', 'Ж', '日本', 'a·', '𝒳', 'À', 'Ö', 'name', 'true', 'not',
             'a' * 40, 'lt', 'amp', 'html', 'p', 'CDATA', 'DOCTYPE', 'a--b']
# Words which code may treat specially: of HTML, of wrappers, of databases and templates
WORDS = ['root', 'item', 'pre', 'code', 'script', 'style', 'table', 'br', 'title', 'head', 'body', 'space', 'lang', 'class', 'id', 'href', 'type', 'value', 'key', 'data', 'note', 'comment', 'doc', 'document',
         'element', 'top', 'entry', 'list', 'row', 'textarea', 'span', 'feed', 'base', 'default', 'none', 'None', 'null', 'parent', 'children', 'attributes', 'content', 'nil', 'ref', 'self', 'tail']
WORD_VALUES = ['preserve', 'default', 'en', 'true', 'false', 'no', 'yes', 'none', 'null', '0', '1', 'id', '#', 'x y', 'urn:x', 'http://www.w3.org/1999/xhtml', 'text/xml', 'a:b', '*', '1999-01-01']
PAIRS = [('=', 'space', 'preserve'), ('=', 'space', 'default'), ('=', 'lang', 'en'), ('=', 'type', 'text'), ('=', 'id', 'x'), ('=', 'class', 'pre'), ('=', 'class', 'x y'), ('=', 'nil', 'true'), ('=', 'hidden', 'hidden'), ('=', 'indent', 'no')]
# Names which are also names for parsers limited to the fourth edition of XML 1.0
LETTERS = list('abcdefgxyzABCXYZ_') + ['é', 'Ö', 'ß', 'λ', 'Ω', 'Ж', 'я', '日', '本', 'ア']
EXPAT_ODD = ['_', 'a-b', 'a.b', 'a1', 'x-', 'A', 'or', 'and', 'div', 'text', 'node', 'é', 'Ж', '日本', 'name', 'html', 'p', 'a' * 40, 'CDATA']


# Names easily taken for each other
LONG = 'long-common-beginning-of-names-'
NAME_SETS = [
    ['a', 'A', 'aa', 'Aa'], ['a', 'a.b', 'a-b', 'b'], ['b', 'b.c', 'a.b', 'c'], [LONG + 'a', LONG + 'b', LONG, LONG + 'aa'], ['é', 'e\u0301', 'e', 'É'], ['k', 'K', '\u212a', 'kk'], ['_', '_a', 'a_', '__'],
    ['or', 'and', 'div', 'mod'], ['text', 'node', 'comment', 'name'], ['child', 'self', 'parent', 'attribute'], ['ab', 'ba', 'a', 'b'], ['a1', 'a2', 'a10', 'a01'], ['x', 'X', 'xx', 'x-'],
    ['ß', 'ss', 'SS', 'ẞ'], ['ﬁ', 'fi', 'FI', 'f'], ['日', '本', '日本', '本日'], ['𝒳', '𝒴', 'X', 'Y'], ['true', 'false', 'None', 'null'], ['id', 'Id', 'ID', 'xid'], ['a-b', 'a_b', 'a.b', 'ab'],
    ['count', 'string', 'lookup', 'position'], ['ancestor-or-self', 'ancestor', 'following-sibling', 'following'], ['xml', 'xmlns', 'XML', 'x'], ['item', 'items', 'Item', 'ite']]
EXPAT_NAME_SETS = [[n for n in s] for s in NAME_SETS if all(ord(c) < 0x80 or c in 'é日本' for n in s for c in n) and 'xml' not in s]


def name_maps(old, sets=NAME_SETS, mixed=True):
    '''Dictionaries from the old names to new ones'''
    perm = st.sampled_from(sets).flatmap(st.permutations)
    if mixed:
        # Also names of no set, so that old and new ones mix
        perm = pick(perm, perm, st.lists(names(), min_size=len(old), max_size=len(old), unique=True))
    return perm.map(lambda p: dict(zip(old, p)))


def rename(tree, elems, attrs=(), values=()):
    '''Tree with names, texts and values mapped by dictionaries'''
    attrs, values = dict(attrs), dict(values)
    if isinstance(tree, str):
        return values.get(tree, tree)
    return [elems.get(tree[0], tree[0]), [[attrs.get(k, k), values.get(v, v)] for k, v in tree[1]], [rename(c, elems, attrs, values) for c in tree[2]]]


def names(odd=True):
    simple = st.sampled_from(SIMPLE_NAMES)
    if not odd:
        return simple
    start = range_chars(NAME_START)
    rest = range_chars(NAME_START + NAME_EXTRA)
    built = st.tuples(start, st.lists(rest, max_size=4)).map(lambda t: t[0] + ''.join(t[1]))
    return pick(simple, simple, simple, simple, st.sampled_from(ODD_NAMES), st.sampled_from(ODD_NAMES), built, built, st.sampled_from(WORDS))


def expat_names():
    rest = st.sampled_from(LETTERS + list('-.0123456789'))
    built = st.tuples(st.sampled_from(LETTERS), st.lists(rest, max_size=4)).map(lambda t: t[0] + ''.join(t[1])) \
        .filter(lambda n: not n.lower().startswith('xml'))
    simple = st.sampled_from(SIMPLE_NAMES)
    return pick(simple, simple, simple, simple, st.sampled_from(EXPAT_ODD), st.sampled_from(EXPAT_ODD), built, built, st.sampled_from(WORDS))


CHUNKS = ['x', 'y', '1', '2', ' ', '\n', '\t', '&', '<', '>', '"', "'", ']]>', 'é', '\u00a0', '&amp;', '&#x41;', '--', '/>',
          ' ', '\n', 'a b', '\u2028', '\ufffd', '\ud7ff', '\ue000', '\U0001f600', '\U0010fffd', '=', '/', '%', '#', ';',
          '\\', '\u0085x'[1:], '\u3000', '<!--', '{', '}', '$', 'lt', '[', '#x', 'amp;', '.', '-', '0', '\ufeff', '\u200b', '\u0301', 'e\u0301', 'X', '  ', ' \n ', '\xad', '%20', 'true', 'None', '&lt;']


def texts(min_chunks=0, max_chunks=4, simple=False):
    if simple:
        return st.sampled_from(['x', 'y', '1', '2', 'xy', ' ', '10', 'é', '1.5', '-1', ' 2 ', ''][:12 if min_chunks == 0 else 11])
    chunk = pick(st.sampled_from(CHUNKS), st.sampled_from(CHUNKS[:16]), range_chars(CHARS))
    return st.lists(chunk, min_size=min_chunks, max_size=max_chunks).map(''.join)


HEAVY = [1, 2, 3, 5, 8, 17, 40, 100]


def trees(name=None, aname=None, value=None, text=None, max_tokens=12, heavy=True, merge=True, max_attrs=3,
          empty_text=False, min_tokens=0):
    '''
    Trees, from a list of tokens. merge: adjacent text is merged, as in parsed documents
    '''
    own = aname is not None or name is not None
    name = names() if name is None else name
    aname = name if aname is None else aname
    text = texts(1) if text is None else text
    value = pick(texts(), texts(), texts(), texts(), texts(), st.sampled_from(WORD_VALUES)) if value is None else value
    index = st.integers(0, 7)
    attr = st.tuples(index, value)
    attrs = st.lists(attr if own else pick(*[attr] * 9, st.sampled_from(PAIRS)), max_size=max_attrs) if max_attrs else st.just([])
    options = [
        st.tuples(st.just('o'), index, attrs),
        st.tuples(st.just('o'), index, st.just([])),
        st.tuples(st.just('t'), text),
        st.tuples(st.just('t'), text),
        st.tuples(st.just('c'), st.integers(1, 2)),
    ]
    if heavy:
        options.append(st.tuples(st.just('h'), st.sampled_from('dwl'), st.sampled_from(HEAVY), index))
    return st.tuples(
        st.lists(name, min_size=1, max_size=4, unique=True),
        st.lists(aname, min_size=1, max_size=4, unique=True) if max_attrs else st.just([]),
        attrs,
        st.lists(pick(options), max_size=max_tokens, min_size=min_tokens)
    ).map(lambda t: build(*t, merge, empty_text))


def build(pool, apool, top_attrs, tokens, merge=True, empty_text=False):
    def mk_attrs(pairs):
        out = {}
        for i, v in (p[-2:] for p in pairs):
            out.setdefault(i if isinstance(i, str) else apool[i % len(apool)], v)
        return [[k, v] for k, v in out.items()]

    def add_text(children, s):
        if not s and not empty_text:
            return
        if merge and children and isinstance(children[-1], str):
            children[-1] += s
        else:
            children.append(s)

    top = [pool[0], mk_attrs(top_attrs), []]
    stack = [top]
    heavies = 0
    for tok in tokens:
        children = stack[-1][2]
        if tok[0] == 'o':
            e = [pool[tok[1] % len(pool)], mk_attrs(tok[2]), []]
            children.append(e)
            stack.append(e)
        elif tok[0] == 't':
            add_text(children, tok[1])
        elif tok[0] == 'c':
            for _ in range(tok[1]):
                if len(stack) > 1:
                    stack.pop()
        elif heavies < 2:
            heavies += tok[2] > 8
            nm = pool[tok[3] % len(pool)]
            if tok[1] == 'd':
                for _ in range(tok[2]):
                    e = [nm, [], []]
                    stack[-1][2].append(e)
                    stack.append(e)
            elif tok[1] == 'w':
                for i in range(tok[2]):
                    children.append([nm, [], [str(i)] if i % 3 == 0 else []])
            else:
                add_text(children, 'x y&z' * tok[2])
    return top


def tapes(max_size=12):
    '''Layout choices, used in turn, again and again'''
    return st.lists(st.integers(0, 15), max_size=max_size)


class Tape:
    def __init__(self, data):
        self.data = data or [0]
        self.i = 0

    def pick(self, options):
        v = self.data[self.i % len(self.data)]
        self.i += 1
        return options[v % len(options)]


NAMED = {'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}


def hexref(c, tape):
    n = ord(c)
    return tape.pick(['&#x{:x};', '&#x{:X};', '&#x0{:x};', '&#x000{:X};']).format(n)


def render_text(s, tape):
    out = []
    for c in s:
        k = tape.pick(range(16))
        if c in '<>&':
            out.append(NAMED[c] if k < 10 else hexref(c, tape))
        elif k == 15 or (c in '"\'' and k == 13):
            out.append(hexref(c, tape))
        elif c in '"\'' and k > 9:
            out.append(NAMED[c])
        elif c == '\n':
            out.append('\n' if k < 10 else '\r\n' if k < 13 else '\r')
        else:
            out.append(c)
    # A CR before a literal LF would be taken for one line end
    res = []
    for i, piece in enumerate(out):
        if piece == '\r' and i + 1 < len(out) and out[i + 1][0] == '\n':
            piece = '\n'
        res.append(piece)
    return ''.join(res)


def render_value(s, tape):
    q = tape.pick('"\'')
    out = [q]
    for c in s:
        k = tape.pick(range(16))
        if c in '<>&' or c == q:
            out.append(NAMED[c] if k < 10 else hexref(c, tape))
        elif c in '\n\t' or k == 15:
            out.append(hexref(c, tape))
        elif c in '"\'' and k > 11:
            out.append(NAMED[c])
        else:
            out.append(c)
    out.append(q)
    return ''.join(out)


WS = ['', '', '', '', ' ', '\n', '\t', '  ', '\r\n', '\n ']
WS1 = [' ', ' ', ' ', '\n', '\t', '  ', '\r\n', ' \t']


def render(tree, tape):
    '''MicroXML text for the tree, with the layout the tape chooses'''
    t = Tape(tape)
    out = [t.pick(WS)]

    def start(e):
        out.append('<' + e[0])
        for k, v in e[1]:
            out.append(t.pick(WS1) + k + t.pick(WS) + '=' + t.pick(WS) + render_value(v, t))
        out.append(t.pick(WS) + '>')

    start(tree)
    stack = [(tree, iter(tree[2]))]
    while stack:
        e, it = stack[-1]
        for child in it:
            if isinstance(child, str):
                out.append(render_text(child, t))
            else:
                start(child)
                stack.append((child, iter(child[2])))
                break
        else:
            out.append('</' + e[0] + t.pick(WS) + '>')
            stack.pop()
    out.append(t.pick(WS))
    return ''.join(out)


# Facts about trees

def events(tree):
    '''The events of the document, as JSON'''
    out = []
    anc = []

    def start(e):
        out.append(['start', e[0], [list(p) for p in e[1]], list(anc)])
        anc.append(e[0])
    start(tree)
    stack = [(tree, iter(tree[2]))]
    while stack:
        e, it = stack[-1]
        for child in it:
            if isinstance(child, str):
                out.append(['text', child])
            else:
                start(child)
                stack.append((child, iter(child[2])))
                break
        else:
            anc.pop()
            out.append(['end', e[0], list(anc)])
            stack.pop()
    return out


def value(node):
    if isinstance(node, str):
        return node
    out = []
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, str):
            out.append(n)
        else:
            stack.extend(reversed(n[2]))
    return ''.join(out)


def walk(tree, depth=0):
    '''(element, depth) in document order'''
    stack = [(tree, depth)]
    while stack:
        e, d = stack.pop()
        yield e, d
        stack.extend((c, d + 1) for c in reversed(e[2]) if not isinstance(c, str))


def depth(tree):
    return max(d for _, d in walk(tree)) + 1


def count(tree):
    return sum(1 for _ in walk(tree))


def normal(tree):
    '''Adjacent text merged, and empty text dropped'''
    top = [tree[0], [list(p) for p in tree[1]], []]
    stack = [(tree, top)]
    while stack:
        src, dst = stack.pop()
        for c in src[2]:
            if isinstance(c, str):
                if not c:
                    continue
                if dst[2] and isinstance(dst[2][-1], str):
                    dst[2][-1] += c
                else:
                    dst[2].append(c)
            else:
                new = [c[0], [list(p) for p in c[1]], []]
                dst[2].append(new)
                stack.append((c, new))
    return top


def copy(t):
    return t if isinstance(t, str) else [copy(x) for x in t]


def enlarge(tree, ops, merge, limit=400):
    '''Tree with parts repeated: many children, many attributes, long texts and values, long chains of elements'''
    tree = copy(tree)
    for kind, at, n in ops:
        elems = [e for e, _ in walk(tree)]
        e = elems[at % len(elems)]
        size = len(elems) + sum(len(x[2]) for x in elems)
        chars = sum(len(v) for x in elems for _, v in x[1]) + sum(len(c) for x in elems for c in x[2] if isinstance(c, str))
        if kind in ('texts', 'values', 'children', 'child'):
            n = min(n, max(1, 200000 // (chars + 1)))
        if kind == 'chain':
            for i in range(min(n, 100, limit - size)):
                tree = [elems[i % len(elems)][0] if i % 3 else e[0], [], [tree]]
        elif kind == 'attributes':
            have = {k for k, _ in e[1]}
            e[1].extend([['z{}'.format(i), str(i % 7)] for i in range(n) if 'z{}'.format(i) not in have])
        elif kind == 'texts':
            e[2] = [c * n if isinstance(c, str) and len(c) * n < 20000 else c for c in e[2]]
        elif kind == 'values':
            e[1] = [[k, v * n if len(v) * n < 20000 else v] for k, v in e[1]]
        elif kind == 'children':
            inner = 1 + sum(1 + len(x[2]) for x, _ in walk(e))
            e[2] = [copy(c) for _ in range(max(1, min(n, (limit - size) // inner))) for c in e[2]]
        elif kind == 'child' and e[2]:
            # One child many times
            i = at % len(e[2])
            inner = 1 if isinstance(e[2][i], str) else 1 + sum(1 + len(x[2]) for x, _ in walk(e[2][i]))
            e[2][i:i + 1] = [copy(e[2][i]) for _ in range(max(1, min(n, (limit - size) // inner)))]
        elif kind == 'alike':
            # Texts and values much alike: a long beginning, or end, in common
            long = PREFIXES[at % len(PREFIXES)] * min(n, 40)
            for x in elems:
                x[1] = [[k, v + long if n % 3 == 0 else long + v] for k, v in x[1]]
                x[2] = [c if not isinstance(c, str) else c + long if n % 3 == 0 else long + c for c in x[2]]
        elif kind == 'text-run' and not merge:
            i = 0 if n % 2 else at % (len(e[2]) + 1)
            e[2][i:i] = ['xy'[i % 2] for i in range(min(n, limit))]
    return normal(tree) if merge else tree


PREFIXES = ['x', 'ab', 'word ', '&', '"', 'é', ' ', '1']


def enlargements(merge=True):
    n = pick(st.integers(2, 12), st.sampled_from([15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 256, 257]))
    return st.lists(st.tuples(st.sampled_from(['children', 'children', 'child', 'child', 'chain', 'attributes', 'texts', 'values', 'alike'] + ['text-run'] * (1 if merge else 3)), st.integers(0, 20), n), min_size=1, max_size=3)


def larger(tree, merge=True, limit=400):
    return st.tuples(tree, enlargements(merge)).map(lambda t: enlarge(t[0], t[1], merge, limit))


def enlarged_cases(cases, merge=True, key='tree', limit=400):
    '''Cases (dicts) with enlarged trees'''
    def f():
        def enlarged(t):
            case, ops = t
            return dict(case, **{key: enlarge(case[key], ops, merge, limit)})
        return st.tuples(cases(), enlargements(merge)).map(enlarged)
    return f


SIZES = [999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 16385, 20000, 32768, 32769, 50000, 65535, 65536, 65537, 100000, 131073]
MANY = [255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1024, 1025, 2000]


def counted(n, piece):
    '''A text of length n, of which no part is like another one'''
    out, size, i = [], 0, 0
    while size < n:
        out.append(str(i) + piece)
        size += len(out[-1])
        i += 1
    return ''.join(out)[:n]


def huge(tree, ops, merge=True, many=9999):
    '''Tree with one or two parts which are very large'''
    tree = copy(tree)
    for kind, at, n, piece in ops:
        elems = [e for e, _ in walk(tree)]
        e = elems[at % len(elems)]
        if kind == 'text':
            i = at % (len(e[2]) + 1)
            e[2].insert(i, counted(n, piece))
        elif kind == 'value':
            e[1] = [[k, v] for k, v in e[1] if k != 'huge'] + [['huge', counted(n, piece.replace('\t', ' ').replace('\n', ' '))]]
        elif kind == 'name':
            e[0] = 'n' + counted(n // 8, '-')
        elif kind == 'aname':
            name = 'a' + counted(n // 8, '-') + '.' + str(at)
            e[1] = [[k, v] for k, v in e[1] if k != name] + [[name, piece.strip()]]
        elif kind == 'children':
            m = min(MANY[n % len(MANY)], many)
            e[2].extend([['c' if i % 3 else 'd', [['i', str(i)]] if i % 2 else [], [str(i)] if i % 5 == 0 else []] for i in range(m)])
        elif kind == 'mixed':
            m = min(MANY[n % len(MANY)], many)
            e[2].extend([['c', [], []] if i % 2 else str(i) for i in range(m)])
        elif kind == 'attributes':
            m = min(MANY[n % len(MANY)], many)
            have = {k for k, _ in e[1]}
            e[1] = e[1] + [['h{}'.format(i), str(i)] for i in range(m) if 'h{}'.format(i) not in have]
        elif kind == 'deep':
            m = n % 200 + 100
            for i in range(m):
                tree = ['c' if i % 3 else 'd', [['i', str(i)]] if i % 2 else [], [tree]]
    return normal(tree) if merge else tree


def huge_ops(kinds='text text value name aname children mixed attributes deep'):
    one = st.tuples(st.sampled_from(kinds.split()), st.integers(0, 20), st.sampled_from(SIZES), st.sampled_from(['', ' ', 'x', '&', '<', '"', "'", '\n', 'é', '\U0001f600', ' word ', '>']))
    return pick(st.tuples(one), st.tuples(one), st.tuples(one, one))


def huge_cases(cases, merge=True, key='tree', many=9999, **kw):
    '''Cases (dicts) with huge trees'''
    def f():
        return st.tuples(cases(), huge_ops(**kw)).map(lambda t: dict(t[0], **{key: huge(t[0][key], t[1], merge, many)}))
    return f


def rich(tree):
    '''A tree with more than one element, and with text or attributes'''
    return count(tree) > 1 and any(e[1] or any(isinstance(c, str) for c in e[2]) for e, _ in walk(tree))


def describe(rec, tree):
    n = count(tree)
    d = depth(tree)
    rec.label('elements ' + ('1' if n == 1 else '2-4' if n < 5 else '5-15' if n < 16 else '16+'))
    if d > 30:
        rec.label('deeper than 30')
    if any(e[1] for e, _ in walk(tree)):
        rec.label('with attributes')
    if any(isinstance(c, str) for e, _ in walk(tree) for c in e[2]):
        rec.label('with text')
