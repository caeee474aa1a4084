import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Every function the property depends on is verified against its contract on the MIR rustc emits from the current /repo, for all inputs and any number of fields, attributes and options; '
        'obligations discharged by Z3. Trusted: rustc and its MIR, the symbolic executor and contract language in /verif/mirv, assumed contracts on std/proc-macro2/quote/syn/darling, spans erased. '
        'The option parsers darling derives are under contract too (init, step and exit of their loops). What the generated functions do is proved on their MIR for a finite family of structs, for all builder states, arguments and outcomes of user code; the run-time suite is bounded corroboration and replay.')
EXTRA = {'C19': 'The library error type itself is verified: constructor, accessor, From, Clone and Display text (formatter writes assumed to succeed). Trusted: rustc MIR, mirv, Z3, assumed contracts on core::fmt.'}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true', checks=[dict(property=p['id'], quick_cmd='python3-vt check.py ' + p['id'], thorough_cmd='env VERIF_TIER=thorough python3-vt check.py ' + p['id'],
    technique='contract-based deductive verification: contracts on the macro\'s functions and on the functions it generates, discharged on rustc MIR (symbolic execution + Z3), with bounded replay on the real code', level='proof', level_note=EXTRA.get(p['id'], NOTE)) for p in props], not_applicable=[])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
