import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
how={
'S':'property-based testing and coverage-guided fuzzing (rapid): generated keys, messages and signatures against an independent Ed25519-SHA3 reference model',
'N':'property-based testing and coverage-guided fuzzing (rapid): round-trips and refusals over generated parts, byte strings and integers',
'K':'property-based testing and coverage-guided fuzzing (rapid): generated keys, key strings and randomness sources against a reference model',
'E':'property-based testing and coverage-guided fuzzing (rapid): generated keys, messages, ciphertexts and randomness sources against an independent model of the cipher format',
'G':'property-based testing and coverage-guided fuzzing (rapid): generated points in all representations against affine big-integer and edwards25519 models',
'F':'property-based testing and coverage-guided fuzzing (rapid): generated limb vectors and operation chains against big-integer arithmetic',
'Q':'property-based testing and coverage-guided fuzzing (rapid): boundary-weighted integers against big-integer arithmetic',
'H':'property-based testing and coverage-guided fuzzing (rapid): generated inputs and splittings against independent hash implementations',
'M':'property-based testing and coverage-guided fuzzing (rapid): generated integers and points against big-integer models',
'R':'property-based testing and coverage-guided fuzzing (rapid): generated randomness sources with split reads and failures against the bytes they delivered',
'T':'property-based testing and coverage-guided fuzzing (rapid): generated limbs, bytes and coordinate systems against big-integer models',
'X01':'stateful property-based testing and coverage-guided fuzzing (rapid): generated operation sequences with snapshots of all memory around arguments, results and constants',
'X02':'stateful property-based testing and coverage-guided fuzzing (rapid): generated operation histories with failures against a model of each operation alone',
'X03':'property-based testing (rapid) of generated concurrent programs under the race detector against a model of each operation alone',
}
note={
'X03':'Samples inputs and scheduler interleavings; the race detector makes unsynchronised access visible without the damaging interleaving. Trusts the reference models and the Go race detector.',
'X01':'Samples sequences; every byte around the arguments and every earlier result is compared after every operation. Trusts that memory reachable only inside the library does not matter.',
'X02':'Samples histories of up to 200 operations; a difference to the model counts only if the operation alone in a fresh process gives another result. Trusts the reference models.',
}
d={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[],
'notes':'No hooks in /repo: internals are reached through a go build overlay (overlay/*.go), each file optional, so a renamed internal only loses the facets on it. ./check.sh replay FILE runs a replay file again.'}
for p in props:
    i=p['id']
    d['checks'].append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {i}',
      'technique':how.get(i) or how[i[0]],'level':'exploration',
      'level_note':note.get(i,'Samples the input space with generators weighted towards boundaries and special values; it never shows absence. Trusts the reference models in harness/ref, which check themselves against each other and published vectors at every run.')})
json.dump(d,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(d,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(d['checks']))
