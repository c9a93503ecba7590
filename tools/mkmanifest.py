"""writes MANIFEST.json from properties.jsonl and the contract modules present"""
import importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from pydv.worlds import CONTRACTS
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NA = {}
NOTE = ('Every obligation of the contracts of this property, generated by symbolic evaluation of the functions in /repo\'s current working tree, '
        'is discharged by the normaliser of pydv plus z3 for all inputs satisfying the precondition (no bound on sizes unless a contract is labelled bounded '
        'in the evidence). Reals for floats; library functions by assumed contracts; both listed in the evidence file. Contracts also run concretely on the real code to '
        'produce failing inputs.')
from_notes = {}
try:
    from_notes = json.load(open(os.path.join(root, 'tools', 'level_notes.json')))
except FileNotFoundError:
    pass
EXPL = ('The contracts of this property are executed on the real code with inputs generated from their preconditions (bounded run-time check of the contracts, '
        'counted as exploration, not as proof; sizes and counts are in the evidence file).')
MIXED = ' Besides the proved contracts this property has bounded ones (listed in contracts_bounded of the evidence, never counted as proved).'


def level(pid):
    importlib.import_module('contracts.' + pid.lower())
    cs = CONTRACTS[pid]
    proved = [c for c in cs if not c.bounded and not c.scope]
    scoped = [c for c in cs if not c.bounded and c.scope]
    tech = 'contract-based deductive verification: symbolic evaluation of the real Python functions to verification conditions, discharged by a normaliser and z3'
    if proved:
        return 'proof', NOTE + (MIXED if len(proved) < len(cs) else ''), tech + (', with bounded run-time checks of the remaining contracts' if len(proved) < len(cs) else '')
    if scoped:
        return 'exploration', 'The obligations of these contracts are discharged symbolically for all values but only for the sizes stated in the evidence; ' + EXPL, tech + ', for stated sizes; plus bounded run-time contract checks'
    return 'exploration', EXPL, 'contracts on the real functions, decided by bounded run-time checking (stand-in for deductive verification, see DESIGN.md)'


checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(root, 'contracts', pid.lower() + '.py')):
        lev, note, tech = level(pid)
        checks.append({'property': pid, 'quick_cmd': './check ' + pid, 'thorough_cmd': './check ' + pid + ' --thorough', 'evidence_file': 'evidence/%s.json' % pid,
                       'technique': tech,
                       'level': lev, 'level_note': note + from_notes.get(pid, '')})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'contracts for this property are not written yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Checks read /repo and import quantificationlib from it.'}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
