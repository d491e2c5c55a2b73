"""Writes MANIFEST.json from the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = 'runtime monitoring: random operation histories on the real code, shadow-state monitor after every operation, numpy memory sanitizer'
TECH = dict(
    P07='runtime monitoring: law-checking monitor over swept and random inputs and object lifetimes',
    P08='runtime monitoring: recording optimizer, every request compared online with a reference objective and gradient',
    P09='runtime monitoring: verdict oracle over planted right and wrong gradients, state snapshots around each call',
    P10='runtime monitoring: event log of updates and observer calls checked online against a trace specification',
    P12='runtime monitoring: call log of the wrapped function checked against a reference cache',
    P17='runtime monitoring: traced optimizer runs, report/state consistency oracle',
    P18='runtime monitoring with injected faults: failure automaton checked against every answer',
    P19='runtime monitoring with injected faults in restarts, traced solutions',
    P20='runtime monitoring: random histories of table operations against a reference map',
    P21='runtime monitoring: differential histories of deferred and immediate construction',
    P22='runtime monitoring: printed text parsed and compared with the shadow state, state snapshots around each print',
    P23='runtime monitoring: evaluation traces with and without display compared; observer census; reference regression',
    P24='runtime monitoring: shadow numpy arrays and notification log',
    P25='runtime monitoring: recorded evaluations checked offline against a trace specification, differential runs of the scipy routines',
    P26='runtime monitoring: random histories, table of every handle compared with shadow positions after every operation',
    P27='runtime monitoring: graph compared edge by edge with the shadow structure and a census of observers')
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
PY = '/opt/venv/bin/python -B harness/run.py'
for p in props:
    i = p['id']
    f = os.path.join(V, 'harness', 'props', i.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=i, reason='check not built yet'))
        continue
    src = open(f).read()
    level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in src else 'exploration'
    checks.append(dict(property=i, quick_cmd='{} {} quick'.format(PY, i), thorough_cmd='{} {} thorough'.format(PY, i),
                       evidence_file='evidence/{}.json'.format(i), technique=TECH.get(i, ENGINE), level=level,
                       level_note=NOTE.get(i, 'Randomised workloads, deterministic per VERIF_SEED; the verdict covers the executions seen. See DESIGN.md.')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B harness/sanitize.py || true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: everything is observed through the public interface. harness/sanitize.py builds a small '
               'numpy memory sanitizer into build/ (rebuilt on demand, checks run without it if there is no compiler).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'open')
