'''select_pattern yields exactly the descendants matching the pattern'''
from hypothesis import strategies as st

from vlib import gen, sut
from vlib.harness import Sub, oracle, fail, short
from .c08 import plain_nodes

RULE = ('Random trees with few names, and patterns of names, "*", "**" and tuples; the results are compared by identity and order with a recursive '
        'matcher of patterns against name paths. Non-trivial: the pattern selects some but not all of the descendants, and has "**", "*" or a tuple. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['Patterns end in a step other than "**"']


class Named(str):
    '''Name of an element, which knows its attributes'''
    attrs = ()


def named(e):
    n = Named(e[0])
    n.attrs = e[1]
    return n


def one_of(step, n):
    '''Alternatives are names, and @name for having an attribute of that name'''
    return any(any('@' + k == s for k, _ in n.attrs) if s.startswith('@') else s == n for s in step)


def matches(pattern, names):
    '''Whether the pattern matches the whole path, of Named'''
    reach = {0}     # Positions in the pattern reached so far, before the next name
    for n in names:
        reach = close(pattern, reach)
        new = set()
        for i in reach:
            if i < len(pattern):
                step = pattern[i]
                if step == '**':
                    new.add(i)
                elif step == '*' or step == n or (isinstance(step, (list, tuple)) and one_of(step, n)):
                    new.add(i + 1)
        reach = new
    # Not closed here: a path ends with a step other than **
    return len(pattern) in reach


def close(pattern, reach):
    out = set()
    for i in reach:
        out.add(i)
        while i < len(pattern) and pattern[i] == '**':
            i += 1
            out.add(i)
    return out


def has_attribute(name):
    '''Function for patterns, of nodes of trees or events of streams'''
    def test(x):
        return name in (x[2] if isinstance(x, tuple) else () if isinstance(x, str) else x.xml_attributes)
    return test


def as_pattern(steps):
    return tuple(tuple(has_attribute(a[1:]) if a.startswith('@') else a for a in s) if isinstance(s, list) else s for s in steps)


def check(case, rec):
    from amara3.uxml import treeutil as U
    tree = case['tree']
    top = sut.make(tree)
    real = dict(sut.nodes(top))
    path_of = {id(n): p for p, n in real.items()}
    rec.is_nontrivial = False
    for steps in case['patterns']:
        with oracle():
            plain = dict(plain_nodes(tree))
            elems = [p for p, n in plain.items() if not isinstance(n, str)]
            at = elems[case['at'] % len(elems)]
            below = [p for p in elems if len(p) > len(at) and p[:len(at)] == at]
            expected = [p for p in below if matches(steps, [named(plain[p[:i]]) for i in range(len(at) + 1, len(p) + 1)])]
            nested = any(p != r and r[:len(p)] == p for p in expected for r in expected)
            if nested:
                rec.label('nested matches')
            rec.label('steps {}'.format(len(steps)))
            for s in steps:
                rec.label('attribute' if isinstance(s, list) and any(a.startswith('@') for a in s) else 'tuple' if isinstance(s, list) else s if s in ('*', '**') else 'name')
            if expected and len(expected) < len(below) and any(s in ('*', '**') or isinstance(s, list) for s in steps):
                rec.is_nontrivial = True
            rec.label('matches ' + ('none' if not expected else 'some' if len(expected) < len(below) else 'all'))
        pattern = as_pattern(steps)
        if len(steps) % 3 == 2:
            # A tuple may have functions as well
            pattern = tuple(tuple((lambda x, n=n: not isinstance(x, str) and x.xml_name == n) if i % 2 == 0 and isinstance(n, str) else n for i, n in enumerate(s)) if isinstance(s, tuple) else s for s in pattern)
        got = [path_of.get(id(n), n) for n in U.select_pattern(real[at], pattern)]
        if got != expected:
            fail('pattern {!r} from {} of {}:\n  got paths {}\n  expected  {}', steps, at, short(tree), short(got), short(expected))
    if sut.dump(top) != tree:
        fail('the tree {} became {}', short(tree), short(sut.dump(top)))


def step_lists(names):
    name = st.sampled_from(names)
    alt = gen.pick(st.lists(name, min_size=1, max_size=3), st.lists(name, min_size=1, max_size=3), st.lists(gen.pick(name, st.just('@k')), min_size=1, max_size=2))
    last = gen.pick(name, name, st.just('*'), alt)
    step = gen.pick(name, name, st.just('*'), st.just('**'), st.just('**'), alt)
    return st.tuples(st.lists(step, max_size=4), last).map(lambda t: t[0] + [t[1]])


def cases():
    names = ['a', 'b', 'c']
    tree = gen.pick(*(gen.trees(name=st.sampled_from(n), aname=st.just('k'), value=st.just('1'), text=st.sampled_from(['x', '']), merge=False, empty_text=True,
                                 max_tokens=28, min_tokens=m, heavy=h) for n, m, h in ((names, 10, False), (names[:2], 8, False), (['a', 'b', 'é', 'a-b'], 0, True))))
    return st.fixed_dictionaries(dict(tree=tree, at=gen.pick(st.just(0), st.integers(0, 9)),
                                      patterns=st.lists(gen.pick(step_lists(names), step_lists(names[:2])), min_size=1, max_size=4)))


def derive(tree, at, which, codes):
    '''A pattern for the path of one of the descendants'''
    plain = dict(plain_nodes(tree))
    elems = [p for p, n in plain.items() if not isinstance(n, str)]
    at = elems[at % len(elems)]
    below = sorted([p for p in elems if len(p) > len(at) and p[:len(at)] == at], key=lambda p: (-len(p), p))
    if not below:
        return None
    path = below[which % len(below)]
    out = []
    skip = 0
    for i in range(len(at) + 1, len(path) + 1):
        name = plain[path[:i]][0]
        code = codes[(i - 1) % len(codes)]
        if skip:
            skip -= 1
            if i < len(path):
                continue
        if code == 1:
            out.append('*')
        elif code == 2:
            out.append([name, 'b'] if i % 2 else ['nope', name])
        elif code in (3, 4, 5) and i < len(path):
            out.append('**')
            skip = code - 3
            if skip:
                continue
            out.append(name)
        elif code == 6:
            out.append(name + 'x' if i % 2 else name[:-1] or 'x')
        elif code == 7:
            out.append(name.swapcase())
        else:
            out.append(name)
    while out and out[-1] == '**':
        out.pop()
    return out or None


def derived(cases):
    def f():
        def new(t):
            case, more = t
            found = [derive(case['tree'], case.get('at', 0), w, codes) for w, codes in more]
            return dict(case, patterns=case['patterns'] + [p for p in found if p])
        codes = gen.pick(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5]), min_size=1, max_size=12), st.lists(st.sampled_from([0, 1]), min_size=1, max_size=12), st.lists(st.integers(0, 7), min_size=1, max_size=6))
        return st.tuples(cases(), st.lists(st.tuples(gen.pick(st.integers(0, 3), st.integers(0, 40)), codes), min_size=1, max_size=3)).map(new)
    return f


def respelled(cases, sets=gen.NAME_SETS, names=('a', 'b', 'c')):
    '''Some of the cases with names easily taken for each other'''
    def f():
        def new(t):
            case, m = t
            if m is None:
                return case
            patterns = [[[m.get(x, x) for x in s] if isinstance(s, list) else m.get(s, s) for s in p] for p in case['patterns']]
            return dict(case, tree=gen.rename(case['tree'], m), patterns=patterns)
        return st.tuples(cases(), gen.pick(st.none(), gen.name_maps(names, sets, sets is gen.NAME_SETS))).map(new)
    return f


def chains():
    '''Long chains of elements'''
    def make(t):
        names, side, at, patterns = t
        tree = [names[-1], [], ['x']]
        for i, n in enumerate(reversed(names[:-1])):
            tree = [n, [], ([[names[0], [], []]] if i % 3 == side else []) + [tree] + ([[names[-1], [], [tree]]] if i == 1 and side == 2 else [])]
        return dict(tree=gen.copy(tree), at=at, patterns=patterns)
    return st.tuples(st.lists(st.sampled_from(['a', 'b', 'c']), min_size=5, max_size=20), st.integers(0, 3), st.sampled_from([0, 0, 1, 3]), st.lists(step_lists(['a', 'b', 'c']), min_size=1, max_size=2)).map(make)


A = ['a', [], []]
SUBS = [
    Sub('patterns', derived(respelled(cases)), check, 10000, 300000, examples=[
    dict(tree=['r', [], [['a', [], [['a', [], [['b', [], [['a', [], []]]]]]]]]], at=0, patterns=[['**', 'a', 'b'], ['**', 'a'], ['**', '**', 'a'], ['a', '**', 'a'], [['a', 'b'], '*']])]),
    Sub('long', derived(respelled(chains)), check, 1500, 40000),
    Sub('large', gen.enlarged_cases(cases, False, limit=200), check, 600, 20000),
    Sub('huge', gen.huge_cases(cases, False, kinds='children mixed deep', many=600), check, 100, 3000),
]
