#!/opt/venv/bin/python
"""Write /verif/MANIFEST.json from properties.jsonl and the checks present in props/"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = 'deterministic simulation with fault injection: seeded search over '
WHAT = {
    'C01': 'cut points, damages and interleavings of parsers, against reference events',
    'C02': 'cut points and interleavings, delivered events checked after every fragment',
    'C03': 'truncation points, damages and entry points, with a step budget as the hang oracle',
    'C04': 'handler failures, early stops and handler mutations among interleaved parsers',
    'C05': 'histories of good, failed, truncated and interrupted parses on reused entry points, against a tree model',
    'C06': 'line-level thread interleavings under a baton scheduler, against results without interleaving',
    'C07': 'input chunkings, reads, sink behaviours and reuse histories, against a reference pattern matcher',
    'C08': 'malformed and truncated inputs, read errors and sink failures, against the reference prefix of deliveries',
    'C09': 'streams, sink behaviours and collection points, with the live element count as invariant',
    'C10': 'write errors, torn writes and interleaved writers, against a reference serialisation',
    'C11': 'pipelines of parsers and writers over chunked transport with crashes of the producer',
    'C12': 'histories of tree operations with failing operations and collections, against a list model',
    'C13': 'histories of interleaved, abandoned and interrupted queries and mutations, against evaluation on a fresh copy and a reference evaluator',
    'C14': 'reads, read errors and source kinds, against html5lib\'s own tree',
    'C15': 'interleaved, abandoned and failing scans, against a reference tokenizer',
    'C16': 'sources, reads, read errors and output faults, against a reference composition',
    'C20': 'processes importing at once, with kills, disk errors and power failures at any point of the table files, against results with new tables',
}
LEVEL_NOTE = ('Seeded search over simulated runs, each exactly repeatable from its seed: assurance is over the runs made, not a proof. '
              'Trusted: the reference model in sim/ and props/, CPython, pyexpat, html5lib and ply (run for real, not simulated inside).')
NA = {
    'C17': 'The exact grammar is a function of one input alone: no schedule, fault, time or history takes part, so simulation decides nothing '
           'that plain input generation would not; the parts of it which fragmentation, truncation and damage touch are C01, C02 and C03.',
    'C18': 'The meaning of one expression on one unchanging tree has no schedule, fault or history to vary; what history, interleaving and '
           'mutation may do to results is C13.',
    'C19': 'The C extension does not load under the installed Python 3.12 (PyUnicode APIs removed), is not built by build.sh, and is a pure function of a buffer.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif not os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
            na.append({'property': i, 'reason': 'No check built yet.'})
        else:
            checks.append({
                'property': i,
                'quick_cmd': '%s check.py %s --tier quick' % (PY, i),
                'thorough_cmd': '%s check.py %s --tier thorough' % (PY, i),
                'evidence_file': 'evidence/%s.json' % i,
                'technique': TECH + WHAT[i],
                'level': 'exploration',
                'level_note': LEVEL_NOTE})
    m = {'version': 1,
         'setup_cmd': '%s tools/sanity.py' % PY,
         'hooks': {'guard': 'none', 'enable': 'No hooks were added to /repo: every seam is one the code has (fragments, file objects, '
                            'coroutines) or one Python has (sys.monitoring, threading, gc).', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'Each check copies the library from /repo\'s working tree to a scratch directory, imports it from there and removes it. '
                  'known_findings.txt lists the defects found and fixed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
