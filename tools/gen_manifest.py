#!/usr/bin/python3
'''Writes MANIFEST.json from the checks that exist, and properties.jsonl'''
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
PURE = 'A pure function of its arguments: no schedule, clock, I/O, fault or interleaving takes part in whether it holds, so there is nothing for a simulator to decide (see DESIGN.md). '
NA = dict(
 N01=PURE+'Needs input generation or interval/symbolic analysis of the projection functions.',
 N02=PURE+'Needs differentiation of the code (symbolic or numerical).',
 N03=PURE+'Needs algebraic input generation.',
 N04=PURE+'Needs enumeration of configurations.',
 N05=PURE+'The optimizer is single-threaded and deterministic; reaching an optimum is a numerical property of the input problem.',
 N06=PURE+'Needs Monte-Carlo or algebraic comparison.',
 N07=PURE+'Needs geometric input generation.',
 N08=PURE+'Needs geometric input generation.',
 N09=PURE+'Needs input generation against format references.',
 N10=PURE+'Needs enumeration of shapes and strides.')
TECH = dict(
 C01='deterministic simulation: simulated detector + seccomp system-call fault injection, crash points, seeded search',
 C02='deterministic simulation of the detector subprocess and its pipes, seeded schedules',
 C03='deterministic simulation: system-call fault injection under writer/reader, reference model',
 C04='deterministic simulation: seeded crash points and torn files against all readers',
 C05='deterministic simulation: allocation, mmap and system-call fault injection, leak accounting',
 C06='deterministic simulation: allocation and system-call fault injection, round-trip oracle',
 C07='deterministic simulation: seeded operation histories with failing calls against a reference model',
 C08='deterministic simulation: seeded signal delivery points and Python-thread schedules',
 C09='deterministic simulation: seeded preemptive scheduler over instrumented library threads',
 C10='deterministic simulation: seeded call histories, thread schedules and allocation faults against fresh-process results',
 C11='deterministic simulation of the worker pool: seeded schedules and worker faults',
 C12='deterministic simulation: system-call fault injection and crash points under the command-line tools',
 C13='deterministic simulation: simulated clock, host, detector, system-call faults and crash points under the calibration tool',
 C14='deterministic simulation: seeded callback failures and histories against a reference Dijkstra')
LEVELNOTE = 'Seeded search over schedules and fault sequences: a clean run is evidence, not proof. '
NOTE = dict()
checks=[]; na=[]
for l in open(f'{V}/properties.jsonl'):
    d=json.loads(l); i=d['id']
    if os.path.exists(f'{V}/checks/{i.lower()}.py'):
        checks.append(dict(property=i,
                           quick_cmd=f'./check {i} --tier quick',
                           thorough_cmd=f'./check {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique=TECH[i],
                           level='exploration',
                           level_note=LEVELNOTE + NOTE.get(i,'See DESIGN.md for what is explored and what is not.')))
    else:
        na.append(dict(property=i,reason=NA.get(i,'Its check is not built yet.')))
m=dict(version=1,
       setup_cmd='./setup.sh',
       checks=checks,
       not_applicable=na,
       notes='Nothing in /repo is instrumented: all seams (system calls, allocator, subprocess, pool, threads, clock) are outside of it, so there are no hooks. See DESIGN.md.')
with open(f'{V}/MANIFEST.json','w') as f: json.dump(m,f,indent=1); f.write('\n')
print(len(checks),'checks',len(na),'n/a')
