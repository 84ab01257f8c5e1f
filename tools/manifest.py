# writes MANIFEST.json from properties.jsonl and the bounds stated in the harnesses
import json, re, jsonschema
NOTE = "Every path of the real source (all modules under src/, re-read on each run) reachable from the harness within the stated bounds is executed symbolically and every assertion on it is decided by z3 for all values of the symbolic inputs; a counterexample is replayed on the real code before it is reported, and each completed path is also replayed natively once. Trusted: the executor and its models of the JavaScript built-ins, fetch, Headers, URL and FormData, z3, and the stubs named in the evidence's assumptions. Bounds and anything cut off are in the evidence file."
EXTRA = {
 'C12': ' 62 operations that put an identifier into the URL unencoded are listed as known findings; every other operation and every other violation is reported.',
 'C16': ' The React renderer is a stub that returns any string or fails.',
 'C24': ' The MIME parser is a stub honouring its documented interface.',
 'C26': ' HMAC-SHA256 is assumed unforgeable and collision free; each path is replayed with the real standardwebhooks package.',
 'C29': ' Secrets are strings with a marker that occurs in no other string.',
}
ps = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'node engine/setup.mjs', 'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. No hooks are needed: the checks instrument the sources outside /repo on every run.'}
for p in ps:
    i = p['id']
    m['checks'].append({'property': i, 'quick_cmd': f'node engine/check.mjs {i} --tier quick', 'thorough_cmd': f'node engine/check.mjs {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
        'technique': 'symbolic execution of the real TypeScript source with z3 (SMT), native replay of counterexamples', 'level': 'model_checking', 'level_note': NOTE + EXTRA.get(i, '')})
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']))
