'''HTML by html5lib with its own element tree, as a reference, and tag soup'''
from hypothesis import strategies as st

from . import gen


class Unusable(Exception):
    '''html5lib itself fails on the text'''


def local(name):
    return name.split('}')[-1].split(':')[-1]


def attr_pairs(e):
    out = {}
    for k, v in e.attrib.items():
        k = k.split('}')[-1] if k.startswith('{') else k
        if not k.startswith('xmlns'):
            # Declarations of namespaces may stay or not
            out[k] = v
    return sorted([k, v] for k, v in out.items())


def tree(source):
    '''JSON tree (attributes sorted, adjacent text merged, comments ignored)'''
    import warnings
    import html5lib
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            top = html5lib.parse(source, treebuilder='etree')
        except Exception as e:
            # Errors of html5lib itself
            raise Unusable(repr(e)) from e
    return convert(top)


def convert(top):
    root = [local(top.tag), attr_pairs(top), []]
    stack = [(top, root)]
    while stack:
        src, dst = stack.pop()

        def add(s):
            if s:
                if dst[2] and isinstance(dst[2][-1], str):
                    dst[2][-1] += s
                else:
                    dst[2].append(s)
        add(src.text)
        for c in src:
            if isinstance(c.tag, str):
                new = [local(c.tag), attr_pairs(c), []]
                dst[2].append(new)
                stack.append((c, new))
            add(c.tail)
    return root


def plain(elem):
    '''The same form, of a tree of the code under test'''
    from . import sut
    t = gen.normal(sut.dump(elem))
    for e, _ in gen.walk(t):
        e[1] = sorted(p for p in e[1] if not p[0].startswith('xmlns'))
    return t


TAGS = ('b i a p div table tr td tbody ul li select option svg math mi title head body html form button h1 font nobr x-y em foo template '
        'script textarea br img caption colgroup col frameset frame applet p p b a i table tr td dl dt dd pre style plaintext input th thead optgroup '
        'foreignobject desc mtext annotation-xml object marquee rt ruby noscript iframe xmp hr address center big v:w v:w:z o:p').split()
ATTRS = [' id="1"', ' class=x', ' xlink:href="q"', ' href=h', ' a', ' A=B', " x='&lt;y'", ' x:y=1', ' id="2"', ' type=hidden', ' definitionurl=u', ' a=1 a=2',
         ' xml:lang=en', ' encoding=text/html', ' viewbox=1', ' é=1', ' "=1', ' a:b:c=2', ' xlink:a:b=1', ' :x=1', ' y:=2', ' xmlns:q=u', ' xmlns=v']
BITS = ['x', 'y', ' ', 'x', ' z ', '&amp;', '&lt;', '&nbsp', '&#65;', '&#x41', '&notit;', '\n', '\t', '\x00', '&#0;', '\r\n', 'é', '\U0001f600', '&#x80;', '<', '<<', '</', '&', 'a<b']
OTHER = ['<!--c-->', '<!-- -- -->', '<!DOCTYPE html>', '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN">', '<?pi x?>', '<![CDATA[x]]>', '<!-->', '<!--', '</>', '<!x>', '<br/>',
         '<svg/>', '<p/>', '</br>', '</p>', '<math><mi><b>', '<svg><foreignobject><p>', '<table><tr><td>', '<select><option>', '<a><b></a>']


FOREIGN = ['xml:space', 'xml:lang', 'xml:base', 'xlink:href', 'xlink:title', 'xlink:type', 'xmlns', 'xmlns:xlink', 'viewBox', 'class', 'id', 'style', 'definitionURL', 'xml:id', 'a', 'A', 'é', 'data-x', 'x.y', '_', 'title', 'value', 'name', 'href']
VALUES = ['x', '', ' ', 'preserve', 'a b', ' a  b ', 'b a a', 'x:y', '{u}v', 'a&amp;b', '&lt;', '<>', 'é', '\n', 'a\tb', 'color: red; x', '#q', 'http://www.w3.org/1999/xlink', 'http://u/', 'None', '&nbsp;', '&#0;', 'A', "it's", '%20', 'a' * 70]


def any_attr():
    one = st.tuples(st.sampled_from(FOREIGN), st.sampled_from(VALUES)).map(lambda t: ' {}="{}"'.format(*t))
    return st.lists(one, min_size=1, max_size=3).map(''.join)


def soup(max_tokens=16):
    tag = st.sampled_from(TAGS)
    attr = gen.pick(st.just(''), st.just(''), st.sampled_from(ATTRS), any_attr())
    start = st.tuples(tag, attr).map(lambda t: '<' + t[0] + t[1] + '>')
    few = st.sampled_from(['b', 'i', 'a', 'p', 'table', 'tr', 'td', 'div', 'svg', 'li', 'ul', 'nobr', 'font'])
    foreign = st.tuples(st.sampled_from(['<svg{}>', '<math{}>', '<svg><g{}>', '<math><mi{}>', '<svg><foreignObject{}>', '<svg{}/>', '<svg><a{}>x</a>', '<p{}>', '<template{}>']), any_attr()).map(lambda t: t[0].format(t[1]))
    tok = gen.pick(start, start, foreign, few.map(lambda t: '<' + t + '>'), few.map(lambda t: '</' + t + '>'), tag.map(lambda t: '</' + t + '>'),
                    st.sampled_from(BITS), st.sampled_from(BITS[:5]), st.sampled_from(OTHER))
    toks = gen.pick(st.lists(tok, max_size=6), st.lists(tok, min_size=6, max_size=max_tokens))
    return toks.map(''.join)


PAGE = '<!DOCTYPE html>\n<html><head><title>t</title></head><body>{}</body></html>'


def pages():
    '''Tidy pages, and soup'''
    inline = st.sampled_from(['b', 'i', 'span', 'em', 'a', 'code'])
    block = st.sampled_from(['div', 'p', 'ul', 'section', 'h1', 'blockquote', 'table'])
    txt = st.sampled_from(['x', 'y z', ' ', '&amp;', '&lt;b&gt;', 'é', '\n  ', '1'])

    def wrap(t):
        tag, attrs, kids = t
        return '<{}{}>{}</{}>'.format(tag, attrs, ''.join(kids), tag)
    attrs = gen.pick(st.sampled_from(['', '', ' class="x"', ' id="a1"', ' class="x y" id="b&amp;"', ' hidden']), any_attr())
    leaf = gen.pick(txt, st.just('<br>'), st.just('<img src="i.png" alt="">'), st.just('<!-- c -->'))
    one = st.tuples(inline, attrs, st.lists(leaf, max_size=3)).map(wrap)
    two = st.tuples(block, attrs, st.lists(gen.pick(leaf, one), max_size=4)).map(wrap)
    li = st.tuples(st.just('li'), attrs, st.lists(gen.pick(leaf, one), max_size=3)).map(wrap)
    lst = st.tuples(st.sampled_from(['ul', 'ol']), attrs, st.lists(li, max_size=4)).map(wrap)
    row = st.tuples(st.just('tr'), attrs, st.lists(st.tuples(st.sampled_from(['td', 'th']), attrs, st.lists(gen.pick(leaf, one), max_size=2)).map(wrap), max_size=3)).map(wrap)
    table = st.tuples(st.just('table'), attrs, st.lists(row, max_size=3)).map(wrap)
    body = st.lists(gen.pick(two, lst, table, one, txt), max_size=5).map(''.join)
    return body.map(PAGE.format)


def nontrivial(source):
    return source.count('<') > 2
