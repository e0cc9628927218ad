'''
XPath: expressions as JSON, their generation, rendering, and reference evaluation on plain trees.

Expressions
  ['str', s]  ['num', text]  ['var', name]  ['call', name, [args]]  ['seq', [items]]
  ['neg', e]  ['bin', op, left, right]      op: or and = != < <= > >= |
  ['pred', e, [predicates]]
  ['rel', [[sep, step], ...]]               relative path; first sep is ''
  ['abs', op, rel or None]                  op: / or //
  ['join', e, [[sep, step], ...]]           e/step//step...
Steps: ['.'] ['..'] ['step', axis, test]    test: name, '*', 'text()', 'node()'

Nodes in results of the reference: ('r',) root, ('n', path) element or text, ('a', path, name)
'''
import math
import re
from decimal import Decimal

from hypothesis import strategies as st

from . import gen


class Ambiguous(Exception):
    '''Not defined clearly enough to be decided'''


class TooBig(Exception):
    pass


LIMIT = 1500

# Plain trees


class Model:
    def __init__(self, tree):
        self.tree = tree
        self.by = {}
        self.order = {}
        stack = [((), tree)]
        n = 1
        self.order[('r',)] = (0,)
        while stack:
            p, t = stack.pop()
            self.by[p] = t
            self.order[('n', p)] = (n,)
            if not isinstance(t, str):
                for i, (k, v) in enumerate(t[1]):
                    self.order[('a', p, k)] = (n, i)
                stack.extend((p + (i,), c) for i, c in reversed(list(enumerate(t[2]))))
            n += 1
        self.paths = list(self.by)

    def kind(self, n):
        if n[0] == 'r':
            return 'root'
        if n[0] == 'a':
            return 'attribute'
        return 'text' if isinstance(self.by[n[1]], str) else 'element'

    def value(self, n):
        if n[0] == 'r':
            return gen.value(self.tree)
        if n[0] == 'a':
            return dict(map(tuple, self.by[n[1]][1]))[n[2]]
        return gen.value(self.by[n[1]])

    def name(self, n):
        k = self.kind(n)
        if k == 'root':
            return ''
        if k == 'text':
            raise Ambiguous('name of text')
        return n[2] if k == 'attribute' else self.by[n[1]][0]

    def children(self, n):
        if n[0] == 'r':
            return [('n', ())]
        if n[0] == 'a' or isinstance(self.by[n[1]], str):
            return []
        return [('n', n[1] + (i,)) for i in range(len(self.by[n[1]][2]))]

    def parent(self, n):
        if n[0] == 'r':
            return None
        if n[0] == 'a':
            return ('n', n[1])
        return ('n', n[1][:-1]) if n[1] else ('r',)

    def descendants(self, n):
        out = []
        for c in self.children(n):
            out.append(c)
            out.extend(self.descendants(c))
        return out

    def axis(self, axis, n):
        if axis == 'self':
            return [n]
        if axis == 'child':
            return self.children(n)
        if axis == 'attribute':
            return [('a', n[1], k) for k, _ in self.by[n[1]][1]] if self.kind(n) == 'element' else []
        if axis == 'parent':
            p = self.parent(n)
            return [p] if p else []
        if axis in ('ancestor', 'ancestor-or-self'):
            out = [n] if axis == 'ancestor-or-self' else []
            p = self.parent(n)
            while p:
                out.append(p)
                p = self.parent(p)
            return out
        if axis == 'descendant':
            return self.descendants(n)
        if axis == 'descendant-or-self':
            return [n] + self.descendants(n)
        if axis in ('following-sibling', 'preceding-sibling'):
            p = self.parent(n)
            if n[0] != 'n' or not p:
                return []
            sib = self.children(p)
            i = sib.index(n)
            return sib[i + 1:] if axis == 'following-sibling' else sib[:i][::-1]
        if axis in ('following', 'preceding'):
            # By definition: after or before in document order, without descendants, ancestors, and attributes
            me = self.order[n]
            desc = set(self.descendants(n))
            anc = set(self.axis('ancestor', n))
            nodes = [m for m in self.order if m[0] == 'n' and m != n and m not in desc and m not in anc]
            if axis == 'following':
                return sorted((m for m in nodes if self.order[m] > me), key=self.order.get)
            return sorted((m for m in nodes if self.order[m] < me), key=self.order.get, reverse=True)
        raise AssertionError(axis)

    def test(self, axis, test, nodes):
        if test == 'node()':
            return nodes
        if test == 'text()':
            return [n for n in nodes if self.kind(n) == 'text']
        principal = 'attribute' if axis == 'attribute' else 'element'
        return [n for n in nodes if self.kind(n) == principal and (test == '*' or self.name(n) == test)]


# Conversions

def is_node(x):
    return isinstance(x, tuple)


def number_to_string(x):
    if math.isnan(x):
        return 'NaN'
    if math.isinf(x):
        return 'Infinity' if x > 0 else '-Infinity'
    if x == int(x):
        if abs(x) >= 2 ** 53:
            raise Ambiguous('big integer')
        return str(int(x))
    # The shortest digits which give the number. Not those of the first "%.*e" which gives it: rounded half to even, 2**-24 takes one more
    return '{:f}'.format(Decimal(repr(x)))


NUMBER = re.compile(r'[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*\Z')


def string_to_number(s):
    m = NUMBER.match(s)
    return float(m.group(1)) if m else float('nan')


class Eval:
    def __init__(self, tree, variables=None, tables=None):
        self.m = tree if isinstance(tree, Model) else Model(tree)
        self.vars = variables or {}
        self.tables = tables or {}
        self.work = 0

    def run(self, e, item, force=None):
        self.work = 0
        return self.ev(e, item)

    # conversions of one item

    def string(self, x):
        if x is None:
            return ''
        if is_node(x):
            return self.m.value(x)
        if isinstance(x, bool):
            return 'true' if x else 'false'
        if isinstance(x, (int, float)):
            return number_to_string(x)
        return x

    def number(self, x):
        if x is None:
            return float('nan')
        if is_node(x):
            x = self.m.value(x)
        if isinstance(x, str):
            return string_to_number(x)
        return float(x)

    def boolean(self, x):
        if x is None:
            return False
        if is_node(x):
            return True
        if isinstance(x, float) and math.isnan(x):
            return False
        return bool(x)

    # evaluation

    def many(self, items):
        self.work += len(items)
        if len(items) > LIMIT or self.work > 20 * LIMIT:
            raise TooBig
        return items

    def step(self, s, item):
        if s[0] == '.':
            return [item]
        if not is_node(item):
            raise Ambiguous('step from a value')
        if s[0] == '..':
            return self.m.axis('parent', item)
        return self.m.test(s[1], s[2], self.m.axis(s[1], item))

    def steps(self, items, steps):
        '''Apply [[sep, step], ...] to items'''
        for sep, s in steps:
            out = []
            if sep == '//' and s[0] == 'step' and s[1] == 'child':
                s = ['step', 'descendant', s[2]]
            elif sep == '//':
                items = self.many([d for i in items for d in self.step(['step', 'descendant-or-self', 'node()'], i)])
            for i in items:
                out.extend(self.step(s, i))
                self.many(out)
            items = out
        return self.many(items)

    def ev(self, e, item):
        return self.many(getattr(self, 'ev_' + e[0])(e, item))

    def ev_str(self, e, item):
        return [e[1]]

    def ev_num(self, e, item):
        return [float(e[1])]

    def ev_var(self, e, item):
        return [self.vars[e[1]]]

    def ev_seq(self, e, item):
        return [x for i in e[1] for x in self.ev(i, item)]

    def ev_rel(self, e, item):
        return self.steps([item], [['', e[1][0][1]]] + e[1][1:])

    def ev_abs(self, e, item):
        if not is_node(item):
            raise Ambiguous('absolute path from a value')
        if not e[2]:
            return [('r',)]
        if e[2][1] == [['', ['step', 'child', 'node()']]]:
            raise Ambiguous('/node()')
        starts = [('r',)]
        if e[1] == '//':
            starts += self.m.descendants(('r',))
        out = []
        for s in starts:
            out.extend(self.ev_rel(e[2], s))
            self.many(out)
        return out

    def ev_join(self, e, item):
        return self.steps(self.ev(e[1], item), e[2])

    def ev_pred(self, e, item):
        items = self.ev(e[1], item)
        for p in e[2]:
            out = []
            for pos, i in enumerate(items, 1):
                r = self.ev(p, i)
                first = r[0] if r else None
                if isinstance(first, (int, float)) and not isinstance(first, bool):
                    keep = first == pos
                else:
                    keep = self.boolean(first)
                if keep:
                    out.append(i)
            items = out
        return items

    def ev_neg(self, e, item):
        r = self.ev(e[1], item)
        return [-self.number(r[0] if r else None)]

    def ev_bin(self, e, item):
        op = e[1]
        left, right = self.ev(e[2], item), self.ev(e[3], item)
        if op == '|':
            if not all(map(is_node, left + right)):
                raise Ambiguous('union of values')
            return sorted(set(left + right), key=self.m.order.get)
        if op in ('or', 'and'):
            x, y = (self.boolean(s[0] if s else None) for s in (left, right))
            return [x or y if op == 'or' else x and y]
        return [any([self.compare(op, x, y) for x in left for y in right])]

    def compare(self, op, x, y):
        if op in ('=', '!='):
            if isinstance(x, bool) or isinstance(y, bool):
                if (is_node(x) or is_node(y)) and not (self.string(x) and self.string(y)):
                    raise Ambiguous('node without text compared to a boolean')
                r = self.boolean(x) == self.boolean(y)
            elif isinstance(x, (int, float)) or isinstance(y, (int, float)):
                r = self.number(x) == self.number(y)
            else:
                r = self.string(x) == self.string(y)
            return r if op == '=' else not r
        x, y = self.number(x), self.number(y)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    def ev_call(self, e, item):
        name, args = e[1], e[2]

        def first(i):
            r = self.ev(args[i], item)
            return r[0] if r else None

        def string(i):
            return self.string(first(i))
        if name == 'true':
            return [True]
        if name == 'false':
            return [False]
        if name == 'count':
            return [float(len(self.ev(args[0], item)))]
        if name == 'not':
            return [not self.boolean(first(0))]
        if name == 'boolean':
            return [self.boolean(first(0))]
        if name == 'string':
            return [string(0) if args else self.string(item)]
        if name == 'number':
            return [self.number(first(0) if args else item)]
        if name == 'name':
            x = first(0) if args else item
            return [self.m.name(x) if is_node(x) else '']
        if name == 'string-length':
            return [float(len(string(0) if args else self.string(item)))]
        if name == 'concat':
            out = []
            for a in args:
                r = self.ev(a, item)
                if len(r) > 1:
                    raise Ambiguous('concat of a sequence')
                out.append(self.string(r[0]) if r else '')
            return [''.join(out)]
        if name == 'starts-with':
            return [string(0)[:len(string(1))] == string(1)]
        if name == 'contains':
            return [string(1) in string(0)]
        if name == 'substring-before':
            a, b = string(0), string(1)
            return [a.split(b, 1)[0] if b and b in a else '']
        if name == 'substring-after':
            a, b = string(0), string(1)
            return [a if not b else a.split(b, 1)[1] if b in a else '']
        if name == 'substring':
            s, start = string(0), self.round(self.number(first(1)))
            length = None if len(args) < 3 else self.round(self.number(first(2)))
            return [''.join(c for p, c in enumerate(s, 1) if p >= start and (length is None or p < start + length))]
        if name == 'for-each':
            inner = args[1]
            assert inner[0] == 'quoted'
            return [x for i in self.ev(args[0], item) for x in self.ev(inner[1], i)]
        if name == 'lookup':
            table = self.tables.get(string(0), {})
            return [table[string(1)]] if string(1) in table else []
        raise AssertionError(name)

    @staticmethod
    def round(x):
        if math.isnan(x) or math.isinf(x):
            return x
        f = math.floor(x)
        return float(f + 1 if x - f >= 0.5 else f)


# Rendering

PREC = {'or': 1, 'and': 2, '=': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '|': 8}
FIRST = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')


class Style:
    '''How to spell. Choices are from a tape: nothing unusual without one'''
    def __init__(self, tape=None, spell=True, space=True, parens=True):
        self.t = gen.Tape(tape) if tape else None
        self.spell, self.space, self.parens = spell, space, parens

    def pick(self, options, on=True):
        return self.t.pick(options) if self.t and on else options[0]


def tokens(e, style, prec=0, bare=False):
    '''Tokens of an expression where the context needs at least the given precedence'''
    kind = e[0]
    if kind == 'bin':
        mine = PREC[e[1]]
    elif kind == 'neg':
        mine = 7
    elif kind == 'abs' and not e[2]:
        mine = 0 if prec else 10    # A lone / would take a following name
    else:
        mine = 10
    paren = mine < prec or (not bare and style.pick([0, 0, 0, 0, 0, 0, 1, 0, 2], style.parens and kind != 'quoted'))
    if paren == 2 and prec < 9:
        return ['('] + ['('] + tokens(e, style, bare=True) + [')'] + [')']
    if paren:
        return ['('] + tokens(e, style, bare=True) + [')']
    if kind == 'str':
        return [string_token(e[1], style)]
    if kind == 'num':
        return [number_token(e[1], style)]
    if kind == 'var':
        return ['$', e[1]]
    if kind == 'quoted':
        return [string_token(render(e[1], Style()), style)]
    if kind == 'call':
        out = [e[1], '(']
        for i, a in enumerate(e[2]):
            out += ([','] if i else []) + tokens(a, style)
        return out + [')']
    if kind == 'seq':
        out = ['(']
        for i, a in enumerate(e[1]):
            out += ([','] if i else []) + tokens(a, style)
        return out + [')']
    if kind == 'neg':
        return ['-'] + tokens(e[1], style, 7)
    if kind == 'bin':
        return tokens(e[2], style, mine) + [e[1]] + tokens(e[3], style, mine + 1)
    if kind == 'pred':
        base = e[1]
        out = tokens(base, style, 9)
        for p in e[2]:
            out += ['['] + tokens(p, style) + [']']
        return out
    if kind == 'rel':
        return path_tokens([['', e[1][0][1]]] + e[1][1:], style)
    if kind == 'abs':
        return [e[1]] + (path_tokens([['', e[2][1][0][1]]] + e[2][1][1:], style) if e[2] else [])
    if kind == 'join':
        return tokens(e[1], style, 9) + path_tokens(e[2], style)
    raise AssertionError(e)


def path_tokens(steps, style):
    out = []
    for sep, s in steps:
        if sep:
            out.append(sep)
        out += step_tokens(s, style)
    return out


def step_tokens(s, style):
    long = style.pick([0, 0, 1], style.spell)
    if s[0] == '.':
        return ['self', '::', 'node', '(', ')'] if long and s[1:] != ['value'] else ['.']
    if s[0] == '..':
        return ['parent', '::', 'node', '(', ')'] if long else ['..']
    axis, test = s[1], s[2]
    t = [test[:-2], '(', ')'] if test.endswith('()') else [test]
    if axis == 'child':
        return ['child', '::'] + t if long else t
    if axis == 'attribute':
        return ['attribute', '::'] + t if long else ['@'] + t
    if axis == 'self' and test == 'node()':
        return ['.'] if long else ['self', '::'] + t
    if axis == 'parent' and test == 'node()':
        return ['..'] if long else ['parent', '::'] + t
    return [axis, '::'] + t


def string_token(s, style):
    q = style.pick('"\'', style.spell)
    if q in s:
        q = '"' if q == "'" else "'"
    assert q not in s, s
    return q + s + q


def number_token(text, style):
    k = style.pick([0, 0, 1, 2], style.spell)
    if k == 1:
        text = '0' + text
    elif k == 2:
        text = text + ('0' if '.' in text else '.0')
    return text


def render(e, style=None):
    style = style or Style()
    return spaced(tokens(e, style), style)


def glue(a, b):
    '''Whether the tokens would be read as something else without space between'''
    if a[0] in '"\'' or b[0] in '"\'':
        return False
    namelike = a[-1] not in '()[]/@:=<>|,$*"\''
    if a in ('.', '..'):
        return b[0] in '.0123456789'
    if a == '/' and b in ('/', '//') or a == '//' and b.startswith('/'):
        return True
    if a == '-':
        return False
    if namelike:
        return gen.is_name_char(b[0]) or b[0] in '.-' or b[0].isdigit()
    return False


WS = ['', '', '', ' ', '\n', '\t', '  ', '\r\n']


def spaced(toks, style):
    out = []
    for i, t in enumerate(toks):
        if i:
            ws = style.pick(WS, style.space)
            if not ws and glue(toks[i - 1], t):
                ws = ' '
            # The lone ! of != and such are never apart: they are single tokens
            out.append(ws)
        out.append(t)
    lead = style.pick(['', '', ' '], style.space)
    return lead + ''.join(out) + lead


# Generation

NAMES = ['a', 'b', 'c']
ATTRS = ['k', 'id', 'a']
VALUES = ['', '1', '2', '10', 'x', 'y', '1.5', '-1', ' 2 ', 'xy', 'true', '02', 'é']
AXES = ['child', 'descendant', 'parent', 'ancestor', 'following-sibling', 'preceding-sibling', 'following', 'preceding', 'self',
        'descendant-or-self', 'ancestor-or-self', 'attribute']


def xtrees(names=NAMES, attrs=ATTRS, values=VALUES, max_tokens=16, empty=False, **kw):
    val = st.sampled_from(values)
    text = st.sampled_from([v for v in values if v] + ['', '', ''] * empty)
    kw['empty_text'] = empty
    return gen.pick(*(gen.trees(name=st.sampled_from(names), aname=st.sampled_from(attrs), value=val, text=text, merge=m, heavy=False,
                                 max_tokens=max_tokens, min_tokens=min(n, max_tokens), **kw) for m, n in ((True, 0), (True, 7), (False, 7), (True, 10))))


POOL = ['', ' ', '\n', '\t ', '0', '-0', '0.0', '1', '+1', '1.', '.5', '1e3', '1E3', 'NaN', 'nan', 'Infinity', 'inf', '-Infinity', 'INF', 'true', 'false', 'True', '0x10', '1_000', '１', '٣', '\xa0',
        '\u2028', ' 1', '1 ', '\n1\t', 'x y', 'x ', ' x', 'X', 'x', 'y', 'xy', 'ß', 'ss', 'e\u0301', 'é', '1,5', '--1', '- 1', '1 2', '00', '10', '9', '-', '.', '\ufeff', '\u200b', '-1', '2', '1.0', '01',
        gen.LONG + 'x', gen.LONG + 'y', gen.LONG, '12345678901234567890', '12345678901234567891', '0.1', '0.10', 'None', 'a', 'b', '*', '/', '$s', '&', '<', '&amp;', ']']


def number_texts():
    '''Texts which are numbers, or nearly'''
    space = gen.pick(st.just(''), st.just(''), st.just(''), st.sampled_from([' ', '\n', '\t', ' \n ', '\xa0', '\u2003', '\u3000', '\u2028', '\ufeff', '\u200b', '\u1680', '\u205f']))
    sign = gen.pick(st.just(''), st.just(''), st.sampled_from(['-', '-', '+', '--', '- ', '\u2212', '\u2010', '-\xa0']))
    core = gen.pick(st.sampled_from(['0', '1', '5', '05', '5.', '.5', '5.0', '0.5', '10', '1.50', '100', '2', '3']),
                    st.sampled_from(['', '.', '\u0665', '\uff15', '5_0', '5,0', '5e0', '5E0', '0x5', 'inf', 'nan', 'NaN', 'Infinity', '5.5.5', '5d', '5j', '\xb2', '\u2163', '\xbd', '1/2', '5 0', '5-', "5'", 'true', '1L', '\u0967', '..5', '5..']),
                    st.integers(0, 200).map(str), st.integers(0, 4000).map(lambda n: '%.2f' % (n / 100)))
    return st.tuples(space, sign, core, space).map(''.join)


def respell_expr(e, m):
    if not isinstance(e, list) or not e:
        return e
    if e[0] == 'step' and len(e) == 3 and isinstance(e[2], str):
        return [e[0], e[1], (m['attrs'] if e[1] == 'attribute' else m['elems']).get(e[2], e[2])]
    if e[0] == 'str':
        return ['str', m['elems'].get(e[1], m['values'].get(e[1], e[1]))]
    if e[0] in ('var', 'num', 'axis'):
        return e
    if e[0] == 'call':
        return ['call', e[1], [respell_expr(x, m) for x in e[2]]]
    return [respell_expr(x, m) for x in e]


def respell_tree(t, m):
    return gen.rename(t, m['elems'], m['attrs'], m['values'])


def maps():
    '''Other spellings of names and values'''
    values = gen.pick(st.just({}), st.lists(st.sampled_from(POOL), min_size=len(VALUES), max_size=len(VALUES), unique=True).map(lambda p: dict(zip(VALUES, p))))
    return st.fixed_dictionaries(dict(elems=gen.pick(st.just({}), gen.name_maps(NAMES), gen.name_maps(NAMES)), attrs=gen.pick(st.just({}), gen.name_maps(ATTRS)), values=values))


def respelled(cases, key='exprs'):
    '''The cases, some of them with other names and values in tree and expressions'''
    def f():
        def new(t):
            case, m = t
            if m is None:
                return case
            case = dict(case, tree=respell_tree(case['tree'], m), **{key: [respell_expr(e, m) for e in case[key]]})
            if 's' in case.get('vars', ()):
                case['vars'] = dict(case['vars'], s=m['values'].get(case['vars']['s'], case['vars']['s']))
            if case.get('how') == 'parse':
                case['tree'] = gen.normal(case['tree'])
            return case
        return st.tuples(cases(), gen.pick(st.none(), st.none(), st.none(), maps(), maps())).map(new)
    return f


class Gen:
    '''Strategies for expressions, in layers'''
    def __init__(self, names=NAMES, attrs=ATTRS, values=VALUES, node_vars=('n',), value_vars=('s', 'i', 'f', 't'), functions=True, tables=False, foreach=True, depth=2):
        self.values = values
        name = st.sampled_from(names)
        test = gen.pick(name, name, st.just('*'), st.sampled_from(['text()', 'node()']))
        tag = st.just('step')
        child = st.tuples(tag, st.just('child'), test)
        other = st.tuples(tag, st.sampled_from([a for a in AXES if a != 'attribute']), gen.pick(test, st.sampled_from(['*', 'node()'])))
        attr = st.tuples(tag, st.just('attribute'), gen.pick(st.sampled_from(attrs), st.sampled_from(attrs), st.sampled_from(['*', 'node()', 'text()'])))
        short = st.sampled_from([['.'], ['..']])
        self.step = gen.pick(child, child, other, other, other, attr, short)
        sep = st.sampled_from(['/', '/', '/', '//'])
        more = st.lists(st.tuples(sep, self.step), max_size=3)
        self.steps = st.tuples(st.tuples(sep, self.step), st.lists(st.tuples(sep, self.step), max_size=2)).map(lambda t: [t[0]] + t[1])
        self.rel = st.tuples(self.step, more).map(lambda t: ['rel', [['', t[0]]] + t[1]])
        self.abs = gen.pick(
            st.tuples(st.just('abs'), st.sampled_from(['/', '//']), self.rel).filter(lambda a: a[2][1] != [['', ('step', 'child', 'node()')]]),
            st.tuples(st.just('abs'), st.sampled_from(['/', '//']), self.rel).filter(lambda a: a[2][1] != [['', ('step', 'child', 'node()')]]),
            st.just(['abs', '/', None]))
        self.string = st.tuples(st.just('str'), st.sampled_from([v for v in values if '"' not in v or "'" not in v]))
        self.num = st.tuples(st.just('num'), st.sampled_from(['0', '1', '2', '3', '1.5', '.5', '10', '2.', '1', '2', '0.1', '12345678', '1.0']))
        lit = gen.pick(self.string, self.num)
        nvar = [st.sampled_from(node_vars).map(lambda v: ['var', v])] if node_vars else []
        vvar = [st.sampled_from(value_vars).map(lambda v: ['var', v])] if value_vars else []
        self.nodes0 = gen.pick(self.rel, self.rel, self.rel, self.abs, *nvar)
        dot = st.just(['rel', [['', ['.']]]])
        vdot = st.just(['rel', [['', ['.', 'value']]]])
        bools = st.sampled_from([['call', 'true', []], ['call', 'false', []]])
        rels = st.sampled_from(['=', '=', '!=', '<', '<=', '>', '>='])

        def layer(nodes, values, preds, n):
            '''values: any single or multiple values'''
            any_ = gen.pick(nodes, values)
            new_nodes = gen.pick(
                nodes,
                st.tuples(st.just('pred'), nodes, st.lists(preds, min_size=1, max_size=2)),
                st.tuples(st.just('pred'), nodes, st.lists(preds, min_size=1, max_size=2)),
                st.tuples(st.just('join'), st.tuples(st.just('pred'), nodes, st.lists(preds, min_size=1, max_size=2)), self.steps),
                st.tuples(st.just('join'), nodes, self.steps),
                st.tuples(st.just('bin'), st.just('|'), nodes, nodes),
                st.tuples(st.just('seq'), st.lists(nodes, max_size=3)))
            call = self.calls(any_, nodes, n, functions, tables, foreach)
            new_values = gen.pick(
                values,
                st.tuples(st.just('bin'), rels, any_, any_),
                st.tuples(st.just('bin'), rels, nodes, values),
                st.tuples(st.just('bin'), rels, values, nodes),
                st.tuples(st.just('bin'), st.sampled_from(['and', 'or']), any_, any_),
                st.tuples(st.just('neg'), any_),
                st.tuples(st.just('seq'), st.lists(any_, max_size=3)),
                call, call)
            any2 = gen.pick(new_nodes, new_values)
            # Predicates on values: the item is not a node
            v1 = gen.pick(lit, vdot, vdot, *vvar)
            vpred = gen.pick(self.num, st.tuples(st.just('bin'), rels, v1, v1), st.tuples(st.just('bin'), st.sampled_from(['and', 'or']), v1, v1), v1)
            new_values = gen.pick(new_values, new_values, new_values,
                                   st.tuples(st.just('pred'), st.tuples(st.just('seq'), st.lists(values, max_size=4)), st.lists(vpred, min_size=1, max_size=2)))
            new_preds = gen.pick(self.num, self.num, any2, st.tuples(st.just('bin'), rels, gen.pick(nodes, dot), lit), new_values, self.rel)
            return new_nodes, new_values, new_preds
        values0 = gen.pick(lit, lit, bools, *vvar)
        preds0 = gen.pick(self.num, self.num, self.rel, st.tuples(st.just('bin'), rels, gen.pick(self.rel, dot), lit), bools, lit)
        layers = [(self.nodes0, values0, preds0)]
        for i in range(depth):
            layers.append(layer(*layers[-1], i))
        self.layers = layers
        self.nodes, self.vals, self.preds = layers[-1]
        self.any = gen.pick(self.nodes, self.vals)

    def calls(self, any_, nodes, n, functions, tables, foreach):
        def call(name, *args):
            return st.tuples(st.just('call'), st.just(name), st.tuples(*args).map(list))
        out = [call('count', any_), call('not', any_), call('boolean', any_), call('string', any_), call('number', any_), call('name', nodes),
               call('string'), call('number'), call('name'), call('string-length'), call('string-length', any_)]
        if functions:
            short = gen.pick(self.string, any_)
            out += [call('concat', short, short), call('concat', short, self.string, any_), call('starts-with', short, short), call('contains', short, short),
                    call('substring-before', short, short), call('substring-after', short, short),
                    call('substring', short, any_), call('substring', short, self.num, any_), call('substring', any_, gen.pick(self.num, any_), self.num)]
        if foreach:
            inner = gen.pick(self.rel, self.nodes0, st.sampled_from([['call', 'string', []], ['call', 'name', []], ['call', 'count', [['rel', [['', ['step', 'child', '*']]]]]]]))
            out.append(call('for-each', nodes, inner.map(lambda e: ['quoted', e])))
        if tables:
            tab = gen.pick(st.sampled_from([['str', 't'], ['str', 'u'], ['str', 'nope']]), any_)
            out.append(call('lookup', tab, short))
        return gen.pick(out)


def listed(e):
    '''Tuples (of Hypothesis) as lists, as in JSON'''
    if isinstance(e, (list, tuple)):
        return [listed(x) for x in e]
    return e


# Results of the code under test

class Real:
    '''Maps nodes of a real tree to those of the model'''
    def __init__(self, top):
        from . import sut
        self.top = top
        self.nodes = dict(sut.nodes(top))
        self.path_of = {id(n): p for p, n in self.nodes.items()}

    def node(self, ref):
        return self.nodes[ref[1]]

    def item(self, x):
        '''A result as the reference has it'''
        from amara3.uxml.tree import node, element
        from .harness import fail
        if id(x) in self.path_of:
            return ('n', self.path_of[id(x)])
        if isinstance(x, node):
            parent = x.xml_parent
            if parent is None:
                kids = list(x.xml_children)
                if len(kids) == 1 and kids[0] is self.top and not isinstance(x, element):
                    return ('r',)
                fail('result {!r} is not a node of the tree', x)
            if id(parent) in self.path_of and not isinstance(x, (element, str)):
                p = self.path_of[id(parent)]
                if parent.xml_attributes.get(x.xml_name) != x.xml_value:
                    fail('attribute node {!r} has the wrong value', x)
                return ('a', p, x.xml_name)
            fail('result {!r} is not a node of the tree', x)
        if isinstance(x, (str, bool)):
            return x
        if isinstance(x, (int, float)):
            return float(x)
        fail('unexpected result {!r}', x)

    def items(self, results, expected):
        '''Results as the reference has them. Text nodes are strings, so may be given for a string'''
        out = []
        for i, x in enumerate(results):
            if isinstance(x, str) and i < len(expected) and isinstance(expected[i], str):
                out.append(str.__str__(x))
            else:
                out.append(self.item(x))
            if len(out) > 50 * LIMIT:
                break
        return out


def same_items(a, b):
    return len(a) == len(b) and all(map(same_item, a, b))


def same_item(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, float) and math.isnan(x):
        return math.isnan(y)
    return x == y


def count_kinds(e, out=None):
    '''Kinds of expressions, axes, operators and functions in it, for labels'''
    out = set() if out is None else out
    if isinstance(e, (list, tuple)) and e:
        if e[0] == 'step':
            out.add('axis ' + e[1])
        elif e[0] == 'call':
            out.add(e[1] + '()')
        elif e[0] == 'bin':
            out.add('op ' + e[1])
        elif e[0] in ('pred', 'neg', 'seq', 'var', 'join', 'abs'):
            out.add(e[0])
        elif e[0] == '//':
            out.add('//')
        for x in e:
            if isinstance(x, (list, tuple)):
                count_kinds(x, out)
    return out
