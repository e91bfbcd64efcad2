#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

TECH = {
    'C01': 'runtime monitoring: membership oracle over recorded generations, sanitizer build',
    'C02': 'runtime monitoring: statistical oracle over histograms of complete outputs',
    'C03': 'runtime monitoring: entropy oracle computed from pattern and observed output',
    'C04': 'runtime monitoring: reference parser as oracle over recorded parses, sanitizer build',
    'C05': 'sanitizers (address, undefined, leak, memory) under hostile workloads',
    'C06': 'runtime monitoring: conservation and order of the bytes of an instrumented source',
    'C07': 'runtime monitoring: range and statistical oracle over bounded integers',
    'C08': 'fault injection in randomness sources with a monitor for emissions after the failure',
    'C09': 'runtime monitoring: recorded reads against reference implementations of the streams',
    'C10': 'runtime monitoring: recorded outputs against a reference implementation',
    'C11': 'runtime monitoring: codec oracle over exhaustive short and random long inputs, sanitizer build',
    'C12': 'runtime monitoring: guarded buffers and agreement of output forms, sanitizer build',
    'C13': 'runtime monitoring: strict JSON parser as oracle over recorded outputs',
    'C14': 'runtime monitoring: recorded words against the lines of the list, fault injection in files, sanitizers',
    'C15': 'runtime monitoring: recorded steps and words against counts taken from the list',
    'C16': 'runtime monitoring: operation histories against a sequence model, sanitizer build',
    'C17': 'runtime monitoring: operation histories against a dictionary model, sanitizer build',
    'C18': 'runtime monitoring: observed runs of the tool against a model of its options',
    'C19': 'runtime monitoring: observed runs of the tool against a model of the configuration, sanitizers',
    'C20': 'runtime monitoring: system calls issued inside the sandboxed process, system call traces of ordinary use',
    'C21': 'runtime monitoring: freed memory scanned for secrets, order of system calls',
    'C22': 'runtime monitoring: recorded tokens against a reference tokenizer, sanitizer build',
    'C23': 'runtime monitoring: depth oracle, deep nesting under small stacks and sanitizers',
    'C24': 'runtime monitoring: recorded hashes against a reference implementation, sanitizer build',
    'C25': 'runtime monitoring: shape and frequency oracle over outputs of presets',
    'C26': 'runtime monitoring: race detector, comparison of concurrent, nested and reordered executions with isolated ones',
    'C27': 'runtime monitoring: recorded outputs against independent implementations, guarded buffers, sanitizers',
    'C28': 'runtime monitoring: recorded outputs against independent implementations, guarded buffers, sanitizers',
    'C29': 'runtime monitoring: what is printed for errors against an independent parser, histories of error objects against a model',
    'C31': 'runtime monitoring: taint of secrets followed by valgrind memcheck and MemorySanitizer to branches and addresses',
    'C32': 'runtime monitoring: counters of control flow edges, moved and held memory, stack; oracle comparing sizes that differ by a factor',
    'C33': 'fault injection in memory requests, files and sandbox setup; executions compared with undisturbed ones, address sanitizer',
    'C34': 'runtime monitoring: recorded results of secondary interfaces and tools against models and the primary ones, sanitizer build',
    'C30': 'runtime monitoring: recorded requests against a model of the function table, sanitizers',
}
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if not os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
            na.append(dict(property=pid, reason=NA.get(pid, 'no check yet')))
            continue
        c = importlib.import_module('checks.' + pid.lower()).Check
        note = 'Holds on everything that was executed: %s Assumes: %s.' % (
            c.rule[0].upper() + c.rule[1:], '; '.join(c.assumptions) or 'nothing further')
        checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid,
                           thorough_cmd='python3 check.py %s --tier thorough' % pid,
                           technique=TECH[pid], level=c.level, level_note=note))
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
             notes='No hooks are used: the checks observe the library at its interface and the tool at its system calls.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
