'''Tree edits keep children and parents consistent'''
from hypothesis import strategies as st

from vlib import gen, edits
from vlib.harness import Sub

RULE = ('Histories of creating, parsing, appending, inserting, removing, moving nodes and changing attributes, on the tree API and on a model of '
        'lists at the same time; children (by identity) and parents of all nodes are compared after every step, values and serialisation '
        'at the end. Non-trivial: at least four edits took effect. huge: very long texts, names and values, hundreds to thousands of children, attributes or levels.')
ASSUMPTIONS = ['An element is removed from its parent (by xml_remove, or from the list of children) before it is put elsewhere; positions are as for insert of lists, except that -1 is the end']


def check(case, rec):
    run = edits.Run(rec)
    start = case.get('start')
    if start:
        from amara3.uxml import tree as T
        from amara3.uxml import xml as X
        with_ = T.parse(gen.render(start, [])) if case.get('how') != 'xml' else X.treebuilder().parse(gen.render(start, []))
        run.adopt(with_)
    for op in case['ops']:
        run.step(op)
        run.check()
    run.check_content()
    rec.nontrivial(run.done >= 4)


def histories():
    return st.fixed_dictionaries(dict(ops=edits.ops(30)))


def on_documents():
    tree = gen.trees(name=st.sampled_from(['a', 'b']), text=st.sampled_from(['x', 'x', 'y', '\n']), value=st.sampled_from(['1', '"']), max_tokens=12, heavy=False, min_tokens=2)
    return st.fixed_dictionaries(dict(start=tree, how=st.sampled_from(['microxml', 'xml']), ops=edits.ops(20, parse=False)))


SUBS = [
    Sub('histories', histories, check, 5000, 150000, examples=[
        dict(ops=[['new', 'a', []], ['put', 0, 'x', None], ['put', 0, 'x', None], ['new', 'b', []], ['insert', 0, 3, 1], ['remove', 0, 2], ['text', 'x'], ['remove-other', 0, 4]])]),
    Sub('documents', on_documents, check, 5000, 150000),
    Sub('large', gen.enlarged_cases(on_documents, key='start', limit=150), check, 500, 15000),
    Sub('huge', gen.huge_cases(on_documents, key='start', kinds='text children mixed', many=1100), check, 150, 4000),
]
