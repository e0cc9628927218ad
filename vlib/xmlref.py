'''XML 1.0 read by expat alone, as a reference'''
import xml.parsers.expat


def local(name):
    # Names come as URI, space, local name. The URI may contain anything
    return name.rsplit(' ', 1)[-1]


def events(source, namespaces=True, local_names=True):
    '''Events as JSON, text merged. Raises ExpatError'''
    out = []
    anc = []
    f = local if local_names else (lambda n: n)
    p = xml.parsers.expat.ParserCreate(namespace_separator=' ') if namespaces else xml.parsers.expat.ParserCreate()
    p.ordered_attributes = True

    def start(name, attrs):
        pairs = [[f(attrs[i]), attrs[i + 1]] for i in range(0, len(attrs), 2)]
        out.append(['start', f(name), pairs, list(anc)])
        anc.append(f(name))

    def end(name):
        anc.pop()
        out.append(['end', f(name), list(anc)])

    def text(data):
        if out and out[-1][0] == 'text':
            out[-1][1] += data
        else:
            out.append(['text', data])
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = text
    p.Parse(source, True)
    return out


def tree(source, **kw):
    return tree_of(events(source, **kw))


def tree_of(evs):
    top = None
    stack = []
    for ev in evs:
        if ev[0] == 'start':
            e = [ev[1], ev[2], []]
            if stack:
                stack[-1][2].append(e)
            else:
                top = e
            stack.append(e)
        elif ev[0] == 'text':
            stack[-1][2].append(ev[1])
        else:
            stack.pop()
    return top


def escape_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def escape_value(s):
    return escape_text(s).replace('"', '&quot;').replace('\n', '&#xA;').replace('\t', '&#x9;').replace('\r', '&#xD;')


def encode(tree):
    '''The reference serialisation'''
    out = []

    def start(e):
        out.append('<' + e[0] + ''.join(' {}="{}"'.format(k, escape_value(v)) for k, v in e[1]) + '>')
    start(tree)
    stack = [(tree, iter(tree[2]))]
    while stack:
        e, it = stack[-1]
        for c in it:
            if isinstance(c, str):
                out.append(escape_text(c))
            else:
                start(c)
                stack.append((c, iter(c[2])))
                break
        else:
            out.append('</' + e[0] + '>')
            stack.pop()
    return ''.join(out)


def space_runs(tree):
    '''The tree as list of tags and stripped text between them, for comparison up to white space next to tags'''
    from . import gen
    out = []
    for ev in gen.events(gen.normal(tree)):
        if ev[0] == 'text':
            s = ev[1].strip(' \t\r\n')
            if s:
                out.append(['text', s])
        else:
            out.append(ev)
    return out
