"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vf')
import registry
NA = {
 'C23': 'No check: an information-flow statement over whole messages; a two-run comparison in the protobuf model is conceivable but is not built.',
 'C26': 'The functions are sequences of calls into OpenSSL, which is not in the tree in source form; a stub of OpenSSL detailed enough to decide this would itself be the thing checked.',
 'C27': 'Results hinge on stdio and OpenSSL streaming, neither of which is in the tree in source form to be encoded.',
 'C28': 'The conversions are sequences of OpenSSL bignum and key calls; OpenSSL is not in the tree in source form to be encoded.',
 'C31': 'Stores to memory about to be freed are a matter of the compiled artefact, which a source-level encoding does not show; no check is built.',
 'C35': 'The bindings are SWIG interface files and a Rust wrapper whose ownership behaviour is decided by the JVM/Node garbage collectors and generated glue, none of which can be encoded by a solver from this tree; nothing of it is compiled in this build.',
 'C36': 'Computational hardness of AES, SHA-2, ECDSA and randomness is not a bounded decidable question about this code; every other property assumes it through ideal primitives.',
}
TECH = 'bounded symbolic execution of the real C code with CBMC (SAT), counterexamples replayed on the real code under ASan/UBSan'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        b = sorted({r['bounds'] for r in c['runs'] if r.get('bounds')})
        checks.append(dict(property=i, quick_cmd='python3 vf/driver.py %s --tier quick' % i, thorough_cmd='python3 vf/driver.py %s --tier thorough' % i,
                           technique=c.get('technique', TECH), level='other',
                           level_note=c.get('note', 'Solver verdict for every value of the symbolic inputs within the bounds' + (' (' + '; '.join(b)[:300] + ')' if b else '') + '; unwinding assertions on. ' + c.get('trust', 'Trusts CBMC and its C semantics, the ideal crypto-engine model and the typed protobuf-c runtime model in /verif/models.'))))
    else: na.append(dict(property=i, reason=NA.get(i, 'No check has been built for this property yet.')))
m = dict(version=1, setup_cmd='python3 vf/setup.py', checks=checks, not_applicable=na, notes='See DESIGN.md. No hooks: the code under test is compiled unmodified.')
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not applicable')
