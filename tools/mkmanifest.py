#!/usr/bin/env python3
'''Writes MANIFEST.json from properties.jsonl and the table of deciding methods.'''
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = dict(
    C01='online monitor on every kep_to_cart call against an extended-precision two-body oracle',
    C02='online monitor on every cart_to_kep call against an extended-precision two-body oracle',
    C03='online monitor of range, side and degenerate-orbit rules on every cart_to_kep call',
    C04='trace oracle over conversion chains (round trips, long chains, changed units)',
    C05='line-step monitor of the solver with residual oracle in extended precision',
    C06='online monitor on every anomaly conversion against bracketed extended-precision solutions',
    C07='differential monitor: packaged call against the same objects alone',
    C08='differential monitor: degree call against radian call, twin orbit objects',
    C09='memory sanitizers: poisoned allocations, per-line argument watch, read-only and shared-memory probes, threads',
    C10='online monitor on the equinoctial conversions against the definitions and the two-body oracle',
    C11='oracle comparison of scalar relations with the reference state',
    C12='oracle comparison of rotation matrices (Rodrigues composition)',
    C13='oracle comparison with the defining series in extended precision',
    C14='oracle comparison over all unit names and random numeric units, refusal monitor',
    C15='tamper monitor over all access paths and fresh processes, snapshots around library use',
    C16='recording wrapped functions: monitor of what is received and returned',
    C17='constructed equivalent and visibly different pairs against the reference state',
)
for k, v in dict(
    O01='history monitor: state and elements of every observed step against the two-body oracle',
    O02='history monitor: lockstep twins (immediate, deferred, toggled)',
    O03='history monitor: bitwise frame conditions in manual mode',
    O04='history monitor: read-back and frame conditions after every assignment',
    O05='history monitor: body position across type changes, anomaly oracle',
    O06='history monitor: propagation against a universal-variable oracle in extended precision',
    O07='history monitor: sequence model, bitwise frame of unselected orbits',
    O08='history monitor: copies, slices and iterations against a sequence model, independence probes',
    O09='aliasing sanitizer: tampering with every array read or given, memory overlap probes',
    O10='history monitor: full snapshot before and after every refused operation',
    O11='history monitor: derived quantities of every observed step against the oracle',
    O12='lockstep twins in other units and mass splits',
    O13='dtype monitor on every read of a history, double-precision twin',
    O14='history monitor: undefined orbits in lockstep with the defined orbits alone, poisoned allocations',
    O15='replay monitor: interleaved, threaded and repeated histories bit for bit against the history alone in a fresh library',
).items():
    TECH[k] = v
NOTE = ('Every observed execution of the seeded workload satisfied the oracle; inputs outside the workload are not covered. '
        'Trusts the reference formulas in mon/oracle.py, numpy and the declared conditioning bounds.')


def main():
    sys.path.insert(0, HERE)
    props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
    mods = dict(C='mon/fn_misc.py', O='mon/orb_checks.py')
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(HERE, mods[p[0]])):
            checks.append(dict(property=p, quick_cmd=f'./check.sh {p} quick', thorough_cmd=f'./check.sh {p} thorough',
                               evidence_file=f'evidence/{p}.json', technique='runtime monitoring: ' + TECH[p],
                               level='exploration', level_note=NOTE))
        else:
            na.append(dict(property=p, reason='monitor not built yet'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python selftest.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the monitors wrap the public functions at run time and observe objects through the public interface. '
                   'Replay a finding with ./check.sh <id> --replay <file>. Defects repaired in /repo are listed in known_findings.txt.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


main()
