#!/usr/bin/env python3
'''Write MANIFEST.json from the property modules there are'''
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    'C01': 'property-based testing: generated documents against a model of their events, round trip over renderings',
    'C02': 'metamorphic property-based testing: fragmentation and encoding of generated documents',
    'C03': 'grammar-based and mutation fuzzing against an independent MicroXML recogniser',
    'C04': 'metamorphic and differential property-based testing of lax parsing',
    'C05': 'round-trip property-based testing of serialisation',
    'C06': 'differential property-based testing against xml.etree / expat and a model of the events',
    'C07': 'stateful model-based testing of edit histories',
    'C08': 'property-based testing against reference navigation functions over edited trees',
    'C09': 'property-based testing against a reference pattern matcher',
    'C10': 'property-based testing of streaming against a reference pattern matcher over the parsed tree',
    'C11': 'stateful property-based testing with weak references as oracle',
    'C12': 'round-trip property-based testing of writer call sequences',
    'C13': 'metamorphic property-based testing of pretty-printing',
    'C14': 'differential property-based testing against the reference tree builder of html5lib',
    'C15': 'differential property-based testing of HTML serialisation and round trip',
    'C16': 'property-based testing of paths against a reference evaluator',
    'C17': 'property-based testing of operators and predicates against a reference evaluator',
    'C18': 'property-based testing of functions against a reference evaluator',
    'C19': 'stateful model-based testing of evaluation histories against fresh evaluations',
    'C20': 'round-trip property-based testing of expression serialisation',
    'C21': 'differential property-based testing of query entry points',
    'C22': 'property-based testing of scanner histories against a model of the tokens',
    'C23': 'fuzzing under AddressSanitizer against a reference in Python',
    'C24': 'property-based testing of command runs against a reference computation',
    'C25': 'metamorphic property-based testing of spellings and renamings; grammar fuzzing for rejection',
    'C26': 'stateful property-based testing of interleaved histories against isolated runs',
    'C27': 'property-based testing of generated thread schedules against isolated runs',
}
NOTE = ('Random exploration of generated cases from one seed, with shrinking; it never establishes absence. '
        'Trusts the reference in /verif (see DESIGN.md), CPython and the libraries named there. ')
EXTRA = {
    'C06': 'Trusts the expat library shared with the code under test.',
    'C14': 'Trusts html5lib and its xml.etree tree builder.',
    'C15': 'Trusts html5lib and its xml.etree tree builder.',
    'C23': 'The C extension is compiled from clib in the working tree, with AddressSanitizer and UndefinedBehaviorSanitizer.',
}
GAPS = {}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(TOP, 'properties.jsonl'), encoding='utf-8')]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(TOP, 'props', i.lower() + '.py')):
            checks.append(dict(
                property=i, quick_cmd='./check ' + i, thorough_cmd='./check {} --tier thorough'.format(i),
                evidence_file='evidence/{}.json'.format(i), technique=TECHNIQUE[i], level='exploration',
                level_note=(NOTE + EXTRA.get(i, '')).strip()))
        else:
            na.append(dict(property=i, reason=GAPS.get(i, 'The check is not written yet.')))
    manifest = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                    notes='No hooks in /repo. Each check copies what it needs of /repo\'s working tree, see vlib/env.py.')
    with open(os.path.join(TOP, 'MANIFEST.json'), 'w', encoding='utf-8') as fp:
        json.dump(manifest, fp, indent=1)
        fp.write('\n')


main()
