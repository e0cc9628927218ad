'''
Reference recogniser for MicroXML, written from the grammar. For a text it tells:
  ('accept', events)  well-formed, in the part of the language the parser is for
  ('either', events)  outside of it, but in a lenient superset. A parser may reject it, or else has to give the events
  ('reject', reason)  malformed by any measure
Events have text merged.
'''
from . import gen


# As the production has it, so including noncharacters
NAME_START = gen.NAME_START[:14] + [(0x10000, 0xeffff)]
NAME_CHAR = NAME_START + gen.NAME_EXTRA


class Bad(Exception):
    pass


WS = ' \t\r\n'


class Reader:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.lenient = False
        self.events = []

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def ws(self):
        start = self.i
        while self.i < len(self.s) and self.s[self.i] in WS:
            self.i += 1
        return self.i > start

    def name(self):
        start = self.i
        if not (self.i < len(self.s) and gen.in_ranges(self.s[self.i], NAME_START)):
            raise Bad('name expected at {}'.format(self.i))
        while self.i < len(self.s) and gen.in_ranges(self.s[self.i], NAME_CHAR):
            self.i += 1
        name = self.s[start:self.i]
        if not all(gen.is_char(c) for c in name):
            self.lenient = True   # Noncharacters in the ranges of the name production
        return name

    def ref(self):
        # At &
        end = self.s.find(';', self.i)
        if end < 0:
            raise Bad('reference not ended')
        body = self.s[self.i + 1:end]
        self.i = end + 1
        if body in ('lt', 'gt', 'amp', 'quot', 'apos'):
            return dict(lt='<', gt='>', amp='&', quot='"', apos="'")[body]
        if body.startswith('#x'):
            digits = body[2:]
            if digits and all(c in '0123456789abcdefABCDEF' for c in digits):
                n = int(digits, 16)
                if n <= 0x10ffff and gen.is_char(chr(n)):
                    return chr(n)
        raise Bad('bad reference ' + body[:20])

    def comment(self):
        # At <!--
        end = self.s.find('--', self.i + 4)
        if end < 0 or self.s[end:end + 3] != '-->':
            raise Bad('bad comment')
        body = self.s[self.i + 4:end]
        if not all(gen.is_char(c) or c == '\r' for c in body) or body.endswith('-'):
            raise Bad('bad comment')
        self.i = end + 3
        self.lenient = True

    def misc(self):
        while True:
            self.ws()
            if self.peek(4) == '<!--':
                self.comment()
            else:
                return

    def value(self):
        q = self.peek()
        if q not in ('"', "'"):
            raise Bad('quote expected')
        self.i += 1
        out = []
        while True:
            c = self.peek()
            if not c:
                raise Bad('value not ended')
            if c == q:
                self.i += 1
                return ''.join(out)
            if c == '&':
                out.append(self.ref())
                continue
            if c == '<':
                raise Bad('< in value')
            if c in '>\t\n\r':
                self.lenient = True
            elif not gen.is_char(c):
                raise Bad('illegal character in value')
            out.append(c)
            self.i += 1

    def text(self, s):
        if s:
            if self.events and self.events[-1][0] == 'text':
                self.events[-1][1] += s
            else:
                self.events.append(['text', s])

    def document(self):
        if self.peek() == '\ufeff':
            self.lenient = True
            self.i += 1
        self.misc()
        stack = []
        while True:
            c = self.peek()
            if not c:
                raise Bad('end of document')
            if c != '<':
                if not stack:
                    raise Bad('text outside of the document element')
                if c == '&':
                    self.text(self.ref())
                elif c == '\r':
                    self.i += 2 if self.peek(2) == '\r\n' else 1
                    self.text('\n')
                elif gen.is_char(c):
                    if c == '>':
                        self.lenient = True
                    self.text(c)
                    self.i += 1
                else:
                    raise Bad('illegal character')
                continue
            if self.peek(4) == '<!--':
                self.comment()
                continue
            self.i += 1
            if self.ws():
                self.lenient = True
            if self.peek() == '/':
                self.i += 1
                if self.ws():
                    self.lenient = True
                name = self.name()
                self.ws()
                if self.peek() != '>':
                    raise Bad('> expected')
                self.i += 1
                if not stack or stack.pop() != name:
                    raise Bad('end tag does not match')
                self.events.append(['end', name, list(stack)])
            else:
                name = self.name()
                attrs = {}
                while True:
                    space = self.ws()
                    c = self.peek()
                    if c == '>':
                        self.i += 1
                        empty = False
                        break
                    if self.peek(2) == '/>':
                        self.i += 2
                        empty = True
                        self.lenient = True
                        break
                    if not space:
                        self.lenient = True
                    a = self.name()
                    self.ws()
                    if self.peek() != '=':
                        raise Bad('= expected')
                    self.i += 1
                    self.ws()
                    v = self.value()
                    if a in attrs:
                        raise Bad('duplicate attribute')
                    attrs[a] = v
                self.events.append(['start', name, [[k, v] for k, v in attrs.items()], list(stack)])
                if empty:
                    self.events.append(['end', name, list(stack)])
                else:
                    stack.append(name)
            if not stack:
                break
        self.misc()
        if self.i < len(self.s):
            raise Bad('junk after the document element')


def judge(text):
    if not text.strip(WS):
        return 'either', []     # Nothing there at all: no events either
    r = Reader(text)
    try:
        r.document()
    except Bad as e:
        return 'reject', str(e)
    return ('either' if r.lenient else 'accept'), r.events
