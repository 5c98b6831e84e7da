#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'static frame analysis over an abstract heap with alias tracking',
    'C02': 'static ownership/frame analysis of caller-supplied objects',
    'C03': 'decision-table extraction from source, compared over a finite '
           'abstract domain of types and orderings',
    'C04': 'static invariant analysis: facts on every path to a store entail '
           'the domain',
    'C05': 'static invariant analysis: facts on every path to a store entail '
           'the domain',
    'C06': 'static failure-atomicity analysis (heap at every raise vs entry)',
    'C07': 'static typestate/dependency analysis of the cached fit',
    'C08': 'static derived-state consistency analysis (value-flow terms)',
    'C09': 'static save/load pairing over a virtual file system',
    'C10': 'static exception-flow analysis with injected I/O failure points',
    'C11': 'static file-system effect analysis (path provenance)',
    'C12': 'static ordering/typestate analysis of checkpoint effects',
    'C13': 'pointwise decision-table equivalence of extracted mask terms',
    'C14': 'pointwise decision-table equivalence of extracted accessor terms',
    'C15': 'decision-table extraction over ordering atoms',
    'C16': 'static value-flow analysis of stored ring geometry',
    'C17': 'transition tables of recurrences extracted from the source, over a '
           'finite table of edge orderings',
    'C18': 'angle-unit inference (deg/rad lattice) over value-flow terms',
    'C19': 'interval abstract interpretation of value-flow terms',
    'C20': 'static event/term consistency analysis of the viewer',
    'C21': 'None-ness dataflow analysis of optional state',
    'C22': 'who-may-call effect analysis over the call graph',
    'C23': 'index-coherence analysis of value-flow terms',
    'C24': 'frame conditions and list-operation terms',
    'C25': 'accepted-range vs container-length entailment',
    'C26': 'loop termination analysis (ranking by counter and guard)',
    'C27': 'value-flow terms of the unrolled construction loops, compared '
           'element by element with the ellipse equations',
    'C28': 'induction over the extracted sampling loops; value-flow terms '
           'compared element by element with the radius equations',
    'C29': 'element-wise abstract evaluation of extracted search terms',
    'C30': 'element-wise abstract evaluation of extracted search terms',
    'C32': 'value-flow terms of the disk gradients, compared element by '
           'element with the ellipse tangent',
    'C33': 'value-flow terms of scaling and fit, compared element by element '
           'with their definitions',
    'C34': 'path conditions and value-flow terms of the coordinate vectors, '
           'compared over a table of ranges',
    'C31': 'abstract evaluation of extracted vertex terms',
    'C35': 'value-flow terms of stored attributes, evaluated against the '
           'arguments',
    'C37': 'value-flow terms of the printed texts, written out and compared '
           'with the values held',
    'C36': 'symbolic list edits, evaluated for every index of small lists',
}
NOTE = ('Decided by abstract interpretation of the source on every run; '
        'trusts the model of Python, numpy and os semantics in sa/, and the '
        'annotations used for the types of parameters. Reports only '
        'positively established differences; what the engine cannot '
        'interpret is listed as unresolved in the evidence.')
EXTRA = {
    'C04': ' Ring systems are judged at construction; their attributes are '
           'plain Python attributes.',
    'C25': ' One known finding (see known_findings.txt).',
}
NA = {}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(
        HERE, 'properties.jsonl')) if l.strip()]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(HERE, 'sa', 'props',
                                       p.lower() + '.py')):
            checks.append({
                'property': p,
                'quick_cmd': 'python3 check.py %s --quick' % p,
                'thorough_cmd': 'python3 check.py %s --thorough' % p,
                'evidence_file': 'evidence/%s.json' % p,
                'technique': TECH[p],
                'level': 'other',
                'level_note': NOTE + EXTRA.get(p, ''),
            })
        else:
            na.append({'property': p, 'reason': NA.get(
                p, 'the check for this property is not built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 --version',
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks are static: python3 (standard library only) '
                  'reads /repo source; nothing of /repo is executed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
