"""Writes MANIFEST.json for the properties whose harness exists."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': 'model-based property testing of hash collections against std::collections, hasher included in the generated input',
 'P02': 'model-based property testing of ordered collections against BTreeMap',
 'P03': 'model-based property testing of scalar collections, all scalar types, against BTreeMap',
 'P04': 'model-based property testing of string collections with structured string families against BTreeMap',
 'P05': 'differential/metamorphic property testing of construction routes and duplicate handling',
 'P06': 'property testing with generated degenerate hashers and a hash-call budget',
 'P07': 'property testing of iterator protocols over generated consumption plans',
 'P08': 'stateful model-based testing: generated update/clone histories against a model',
 'P09': 'property testing of multi-key access with pointer-distinctness oracle',
 'P10': 'model-based property testing of set algebra, every left/right type pairing, against BTreeSet',
 'P11': 'differential property testing of equality and debug output against BTreeMap/BTreeSet',
 'P12': 'round-trip and differential property testing of serde across formats and readers',
 'P13': 'structure-aware fuzzing of deserializers, differential against std collections, with allocation monitor',
 'P14': 'program generation: random literal-key macro invocations compiled and executed against a model',
 'P15': 'program generation: random computed-key macro invocations in every declaration form compiled and executed against a model',
 'P16': 'program generation: random emitter configurations, output compiled and executed against a model',
 'P17': 'grammar-based token-stream fuzzing of macro front ends with accept/reject oracle',
 'P18': 'property testing of the index contract over value pairs (exhaustive for 8- and 16-bit types) and generated enums',
 'P19': 'differential property testing: every trait route against the concrete type, frozen and standard',
 'P20': 'stateful property testing with drop-counting keys/values and injected panics',
 'P21': 'fault-injecting property testing: adversarial key traits, references checked against storage',
 'P22': 'boundary-biased property testing of sizes and capacity classes against a model',
 'P23': 'multi-threaded property testing: generated collections read by several threads at once against a model; auto traits over a grid of contents',
}
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{here}/harness/src/bin/{i.lower()}.rs'):
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
            'evidence_file': f'evidence/{i}.json', 'technique': T[i], 'level': 'exploration',
            'level_note': 'generated-input search against an explicit oracle on the real code; no proof of absence; bounds and generators in DESIGN.md'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
