'''Between JSON trees and trees of the code under test'''
from .harness import fail


def make(tree, mode='append'):
    '''Build the tree by way of the tree API'''
    from amara3.uxml.tree import element, text
    top = element(tree[0], dict(map(tuple, tree[1])))
    stack = [(tree, top)]
    while stack:
        src, dst = stack.pop()
        for c in src[2]:
            if isinstance(c, str):
                dst.xml_append(c)
            else:
                e = element(c[0], dict(map(tuple, c[1])))
                dst.xml_append(e)
                stack.append((c, e))
    return top


def dump(elem, parents=True):
    '''JSON tree of an element. Checks types and, unless told otherwise, parents'''
    from amara3.uxml.tree import element, text
    if not isinstance(elem, element):
        fail('not an element: {!r}', elem)
    top = [elem.xml_name, [[k, v] for k, v in elem.xml_attributes.items()], []]
    stack = [(elem, top)]
    seen = {id(elem)}
    while stack:
        src, dst = stack.pop()
        for c in src.xml_children:
            if id(c) in seen:
                fail('the same node twice in a tree: {!r}', c)
            seen.add(id(c))
            if parents and c.xml_parent is not src:
                fail('parent of {!r} is {!r}, but it is a child of {!r}', c, c.xml_parent, src)
            if isinstance(c, element):
                new = [c.xml_name, [[k, v] for k, v in c.xml_attributes.items()], []]
                dst[2].append(new)
                stack.append((c, new))
            elif isinstance(c, text):
                dst[2].append(str.__str__(c))
            else:
                fail('unexpected child {!r}', c)
    return top


def nodes(elem):
    '''All nodes with their path, in document order'''
    from amara3.uxml.tree import element
    stack = [((), elem)]
    while stack:
        path, n = stack.pop()
        yield path, n
        if isinstance(n, element):
            stack.extend((path + (i,), c) for i, c in reversed(list(enumerate(n.xml_children))))


def event_json(ev):
    '''An event as JSON, like gen.events'''
    from amara3.uxml.parser import event
    if ev[0] == event.start_element:
        return ['start', ev[1], [[k, v] for k, v in ev[2].items()], list(ev[3])]
    elif ev[0] == event.characters:
        return ['text', str(ev[1])]
    elif ev[0] == event.end_element:
        return ['end', ev[1], list(ev[2])]
    fail('unexpected event {!r}', ev)


def collector(acc):
    while True:
        ev = yield
        acc.append(event_json(ev))


def merge_text(evs):
    out = []
    for ev in evs:
        if ev[0] == 'text':
            if not ev[1]:
                continue
            if out and out[-1][0] == 'text':
                out[-1] = ['text', out[-1][1] + ev[1]]
                continue
        out.append(ev)
    return out
