"""Regenerates MANIFEST.json from properties.jsonl and the check files."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'default': 'exhaustive bounded enumeration of executions of the real code against a reference model',
 'C04': 'exhaustive delay-bounded schedule exploration of the real OpenMP code under a controlled scheduler',
 'C07': 'exhaustive exploration of operation sequences on the real object against a reference state machine',
 'C08': 'exhaustive exploration of call histories in the real process against fresh-process probes',
 'C09': 'exhaustive fault-point enumeration (every callback position) on the real code',
 'C16': 'exhaustive bounded enumeration of executions of the sanitizer-instrumented real code',
 'C24': 'exhaustive bounded enumeration of inputs, histories and thread schedules of the real kernels under a controlled scheduler',
}
NOTE = {
 'default': 'Every execution of the stated bounded space runs on the code built from /repo and is compared with '
            'a reference model; assumes nothing outside the enumerated alphabets and the tolerances in the evidence.',
 'C04': 'All interleavings at conflicting accesses up to the bound on deviations for small teams and inputs; assumes '
        'sequentially consistent memory and that the instrumented build has the parallel structure of the shipped one.',
 'C16': 'Every execution of the stated bounded space runs under AddressSanitizer; trusts the sanitizer.',
 'C24': 'The CUDA sources run on the host, thread by thread, under a scheduler that checks bounds, barriers and conflicting '
        'accesses; CuPy is replaced by a stand-in on NumPy. Code generation of nvcc and a real device are not covered.',
}
checks, na = [], []
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(R, 'checks', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd=f'./run.sh {p} quick', thorough_cmd=f'./run.sh {p} thorough',
                           evidence_file=f'evidence/{p}.json', technique=TECH.get(p, TECH['default']),
                           level='model_checking', level_note=NOTE.get(p, NOTE['default'])))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Checks build the extension from /repo into a scratch directory themselves; no hooks in /repo.'),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
