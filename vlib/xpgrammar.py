'''
Which texts are expressions: judge(text) gives
  'accept'  an expression of XPath 1.0 as far as MicroXPath has it, must be accepted
  'either'  an extension (sequences, predicates and paths on any expression), or left out of MicroXPath (multiplication)
  'reject'  not an expression
'''
import re

from . import gen

AXES = ('self', 'attribute', 'ancestor', 'ancestor-or-self', 'child', 'descendant', 'descendant-or-self', 'following',
        'following-sibling', 'parent', 'preceding', 'preceding-sibling')
PLAIN = re.compile(r'''(?P<ws>[ \t\r\n]+)|(?P<num>[0-9]+(?:\.[0-9]*)?|\.[0-9]+)|(?P<lit>"[^"]*"|'[^']*')|(?P<sym>\.\.|\.|//|/|::|@|\(|\)|\[|\]|\||!=|=|<=|<|>=|>|\+|-|,|\$|\*)''')
OPERATORS = ('=', '!=', '<', '<=', '>', '>=', '+', '-', '|', '*')
OPERATOR_NAMES = ('or', 'and', 'div', 'mod')


class No(Exception):
    pass


def tokenize(text):
    i, out = 0, []
    while i < len(text):
        if gen.is_name_start(text[i]):
            j = i + 1
            while j < len(text) and gen.is_name_char(text[j]):
                j += 1
            out.append(('name', text[i:j]))
            i = j
            continue
        m = PLAIN.match(text, i)
        if not m:
            raise No('character')
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


class Recogniser:
    def __init__(self, toks):
        self.toks, self.i = toks, 0
        self.strict = True

    def at(self, *values, ahead=0):
        i = self.i + ahead
        return i < len(self.toks) and self.toks[i][0] == 'sym' and self.toks[i][1] in values

    def kind(self, k, ahead=0):
        i = self.i + ahead
        return i < len(self.toks) and self.toks[i][0] == k

    def take(self, *values):
        if not self.at(*values):
            raise No('expected {}'.format(values))
        self.i += 1

    def loose(self):
        self.strict = False

    def whole(self):
        self.expr()
        if self.i < len(self.toks):
            raise No('more')
        return 'accept' if self.strict else 'either'

    def expr(self):
        while True:
            while self.at('-'):
                self.i += 1
            self.postfix()
            if self.at(*OPERATORS):
                if self.at('*') or self.at('|') and self.at('-', ahead=1):
                    self.loose()
                self.i += 1
            elif self.kind('name') and self.toks[self.i][1] in OPERATOR_NAMES:
                self.i += 1
            else:
                return

    def step_starts(self):
        return self.kind('name') or self.at('*', '.', '..', '@')

    def postfix(self):
        plain_dot = False
        if self.at('('):
            self.i += 1
            self.list_(')', self.loose)
        elif self.at('$'):
            self.i += 1
            self.name()
        elif self.kind('lit') or self.kind('num'):
            self.i += 1
        elif self.kind('name') and self.at('(', ahead=1) and self.toks[self.i][1] not in ('node', 'text'):
            self.i += 2
            self.list_(')', None)
        elif self.at('/'):
            self.i += 1
            if self.step_starts():
                plain_dot = self.step()
            elif self.at('/', '//'):
                raise No('step')
            else:
                plain_dot = True
        elif self.at('//'):
            self.i += 1
            plain_dot = self.step()
        else:
            plain_dot = self.step()
        while True:
            if self.at('['):
                if plain_dot:
                    self.loose()
                self.i += 1
                self.expr()
                self.take(']')
            elif self.at('/', '//'):
                self.i += 1
                plain_dot = self.step()
            else:
                return

    def list_(self, close, on_unusual):
        '''Expressions up to the closing parenthesis'''
        n = 0
        if not self.at(close):
            self.expr()
            n = 1
            while self.at(','):
                self.i += 1
                self.expr()
                n += 1
        if n != 1 and on_unusual:
            on_unusual()
        self.take(close)

    def name(self):
        if not self.kind('name'):
            raise No('name')
        self.i += 1

    def step(self):
        '''Whether it is . or ..'''
        if self.at('.', '..'):
            self.i += 1
            return True
        if self.at('@'):
            self.i += 1
        elif self.kind('name') and self.at('::', ahead=1):
            if self.toks[self.i][1] not in AXES:
                raise No('axis')
            self.i += 2
        if self.at('*'):
            self.i += 1
        elif self.kind('name'):
            name = self.toks[self.i][1]
            self.i += 1
            if self.at('('):
                if name not in ('node', 'text') or not self.at(')', ahead=1):
                    raise No('node test')
                self.i += 2
        else:
            raise No('node test')
        return False


def judge(text):
    try:
        return Recogniser(tokenize(text)).whole()
    except No:
        return 'reject'
