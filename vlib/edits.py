'''
Histories of tree edits, run on the tree API and on a list model at the same time.

Operations are JSON lists; their numbers pick nodes from those made so far.
'''
from hypothesis import strategies as st

from . import gen, xmlref
from .harness import fail, short


class Node:
    def __init__(self, kind, real, name=None, attrs=None, s=None):
        self.kind, self.real, self.name, self.attrs, self.s = kind, real, name, attrs, s
        self.children = []
        self.parent = None

    def plain(self):
        '''As JSON tree'''
        if self.kind == 't':
            return self.s
        return [self.name, [list(p) for p in self.attrs.items()], [c.plain() for c in self.children]]

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def within(self, other):
        n = self
        while n is not None:
            if n is other:
                return True
            n = n.parent
        return False


class Run:
    def __init__(self, rec=None):
        from amara3.uxml import tree
        self.T = tree
        self.pool = []
        self.rec = rec
        self.done = 0

    def adopt(self, elem):
        '''Take over an existing tree, as it is'''
        n = Node('e', elem, elem.xml_name, dict(elem.xml_attributes))
        self.pool.append(n)
        for c in elem.xml_children:
            if isinstance(c, self.T.element):
                m = self.adopt(c)
            else:
                m = Node('t', c, s=c.xml_value)
                self.pool.append(m)
            m.parent = n
            n.children.append(m)
        return n

    def element(self, i):
        es = [n for n in self.pool if n.kind == 'e']
        return es[i % len(es)] if es else None

    def step(self, op):
        T = self.T
        what = op[0]
        if what == 'new':
            self.pool.append(Node('e', T.element(op[1], dict(map(tuple, op[2]))), op[1], dict(map(tuple, op[2]))))
            return
        if what == 'text':
            self.pool.append(Node('t', T.text(op[1]), s=op[1]))
            return
        if what == 'parse':
            self.adopt(T.parse(xmlref.encode(op[1])))
            return
        p = self.element(op[1])
        if p is None:
            return
        if what == 'new-under':
            # Made with one parent, but then put into (perhaps) another
            q = self.element(op[2])
            n = Node('e', T.element(op[3], None, p.real), op[3], {})
            q.real.xml_append(n.real)
            self.pool.append(n)
            n.parent = q
            q.children.append(n)
            self.note('made with a parent')
            return
        if what == 'attr':
            if op[3] is None:
                p.real.xml_attributes.pop(op[2], None)
                p.attrs.pop(op[2], None)
            else:
                p.real.xml_attributes[op[2]] = op[3]
                p.attrs[op[2]] = op[3]
        elif what in ('append', 'insert'):
            c = self.pool[op[2] % len(self.pool)]
            if c.kind == 't':
                self.put_text(p, c.real, c.s, op[3] if what == 'insert' else None, c)
                return
            if p.within(c):
                return
            if c.parent is not None:
                if len(op) > 3 and op[-1] == 'direct':
                    # Taken out of the list of children, which is public
                    c.parent.real.xml_children[:] = [d for d in c.parent.real.xml_children if d is not c.real]
                    self.note('move from list')
                else:
                    c.parent.real.xml_remove(c.real)
                    self.note('move')
                c.parent.children.remove(c)
                c.parent = None
            if what == 'append':
                p.real.xml_append(c.real)
                p.children.append(c)
            else:
                i = self.position(p, op[3])
                p.real.xml_insert(c.real, i)
                p.children.insert(i if i != -1 else len(p.children), c)
            c.parent = p
            self.note(what)
        elif what == 'put':
            self.put_text(p, op[2], op[2], op[3])
        elif what == 'remove':
            if p.children:
                i = op[2] % len(p.children)
                self.remove(p, p.children[i])
        elif what == 'remove-other':
            c = self.pool[op[2] % len(self.pool)]
            if c.parent is p:
                self.remove(p, c)
                return
            try:
                p.real.xml_remove(c.real)
            except ValueError:
                self.note('refused')
                return
            fail('removing {!r}, which is not a child, from {!r} raised no ValueError', c.real, p.real)
        elif what == 'detach':
            c = self.pool[op[2] % len(self.pool)]
            if c.parent is not None:
                self.remove(c.parent, c)

    def position(self, p, i):
        '''As for lists, but -1 is the end'''
        n = len(p.children)
        i = i % (n + 1) if i < 20 else (i - 20) % 3 + n if i < 24 else -(i % (n + 2) + 1)
        if i < 0:
            self.note('negative position')
        elif i > n:
            self.note('position past the end')
        return i

    def note(self, label):
        self.done += 1
        if self.rec is not None:
            self.rec.label(label)

    def remove(self, p, c):
        if any(d is not c and d.kind == 't' and c.kind == 't' and d.s == c.s for d in p.children):
            self.note('remove one of equals')
        p.real.xml_remove(c.real)
        p.children = [d for d in p.children if d is not c]
        c.parent = None
        self.note('remove')

    def put_text(self, p, arg, s, i, node=None):
        if i is None:
            p.real.xml_append(arg)
            i = len(p.children)
        else:
            i = self.position(p, i)
            p.real.xml_insert(arg, i)
            i = len(p.children) if i == -1 else min(i, len(p.children)) if i >= 0 else max(0, len(p.children) + i)
        if len(p.real.xml_children) != len(p.children) + 1:
            fail('{} children instead of {} after inserting text', len(p.real.xml_children), len(p.children) + 1)
        real = p.real.xml_children[i]
        if not isinstance(real, self.T.text):
            fail('text was inserted as {!r}', real)
        if node is not None and real is node.real and node.parent is None:
            new = node   # The node itself, instead of a copy
        else:
            new = Node('t', real, s=s)
            self.pool.append(new)
        new.parent = p
        p.children.insert(i, new)
        self.note('text')

    def check(self):
        '''Children and parents of all nodes'''
        for n in self.pool:
            parent = n.real.xml_parent
            expected = None if n.parent is None else n.parent.real
            if parent is not expected:
                fail('the parent of {!r} is {!r} instead of {!r}', n.real, parent, expected)
            if n.kind == 't':
                if str.__str__(n.real) != n.s:
                    fail('text {!r} has become {!r}', n.s, str.__str__(n.real))
                continue
            got = n.real.xml_children
            if len(got) != len(n.children) or any(g is not c.real for g, c in zip(got, n.children)):
                fail('the children of {!r} are {} instead of {}', n.real, short(list(got)), short([c.real for c in n.children]))
            if n.real.xml_name != n.name or dict(n.real.xml_attributes) != n.attrs:
                fail('{!r} has become {!r} {!r}', n.name, n.real.xml_name, n.real.xml_attributes)

    def check_content(self, parse_back=True):
        from . import ref_mx
        for n in self.pool:
            plain = n.plain()
            if n.real.xml_value != gen.value(plain):
                fail('value of {} is {!r}', short(plain), n.real.xml_value)
            if n.kind == 'e' and self.T.strval(n.real) != gen.value(plain):
                fail('strval of {} is {!r}', short(plain), self.T.strval(n.real))
            if n.kind == 'e' and n.parent is None:
                s = n.real.xml_encode()
                verdict, evs = ref_mx.judge(s)
                if verdict == 'reject':
                    fail('serialisation of {} is not MicroXML: {}', short(plain), short(s))
                if evs != gen.events(gen.normal(plain)):
                    fail('serialisation of {} is {}', short(plain), short(s))


def ops(max_ops=25, parse=True, names=None):
    idx = st.integers(0, 30)
    name = st.sampled_from(['a', 'b', 'c', 'é'])
    data = st.sampled_from(['x', 'x', 'y', '', ' ', '<&>', '\n  '])
    attrs = st.lists(st.tuples(st.sampled_from(['a', 'k', 'é']), st.sampled_from(['', '1', '"<'])), max_size=2, unique_by=lambda p: p[0])
    small = gen.trees(name=name, text=st.sampled_from(['x', 'y', ' ']), value=st.sampled_from(['1', '']), max_tokens=6, heavy=False)
    new = st.tuples(st.just('new'), name, attrs)
    options = [
        new, new,
        st.tuples(st.just('text'), data),
        st.tuples(st.just('append'), idx, idx), st.tuples(st.just('append'), idx, idx),
        st.tuples(st.just('insert'), idx, idx, idx), st.tuples(st.just('insert'), idx, idx, idx),
        st.tuples(st.just('put'), idx, data, idx), st.tuples(st.just('put'), idx, data, st.none()),
        st.tuples(st.just('remove'), idx, idx), st.tuples(st.just('remove'), idx, idx),
        st.tuples(st.just('remove-other'), idx, idx),
        st.tuples(st.just('detach'), idx, idx),
        st.tuples(st.just('new-under'), idx, idx, name),
        st.tuples(st.just('append'), idx, idx, st.just(0), st.just('direct')),
        st.tuples(st.just('attr'), idx, st.sampled_from(['a', 'k']), st.sampled_from(['1', '2', None])),
    ]
    if parse:
        options.append(st.tuples(st.just('parse'), small))
    op = gen.pick(options)
    return gen.pick(st.lists(op, min_size=1, max_size=6), st.lists(op, min_size=min(10, max_ops), max_size=max_ops))
