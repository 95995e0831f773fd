#!/usr/bin/env python3
"""Rewrites the 'fixed' list of known_findings.json from the fix: commits in /repo and the property table below."""
import json
import subprocess

PROP = {'keep the control state when copying': 'C03', 'keep control states attached': 'C03', 'drop an identity gate': 'C01', 'compare QubitOperators by': 'C15', 'merge QubitOperators in': 'C01',
        'compare QPE and QAA': 'C15', 'compiler setups for restricted': 'C03', 'linear and grid setups': 'C06', 'ClassicalSimulator honours': 'C11', 'a qubit required by two': 'C03',
        'SwapAndCNOTFlipper keeps': 'C03', 'AutoReplacer does not add': 'C24', 'negative integers are': 'C03', 'decompose one-qubit gates': 'C05', 'carry of additions of': 'C14',
        'comparator restores': 'C14', 'multiplication uses': 'C14', 'the comparator is its own': 'C14', 'division by divisors': 'C14', 'modular addition with': 'C14',
        'emulated inverse addition': 'C13', 'inverses of the quantum arithmetic': 'C13', 'no integer overflow': 'C13'}
MORE = {'the local optimizer failed for long': 'C01', 'long evolutions under small': 'C05', 'modular inverses of numbers': 'C14', 'prepare states with plain rotations': 'C28', 'histograms of lists of registers': 'C25', 'state preparation failed for some': 'C22', 'phase estimation did not read': 'C22', 'phase estimation and amplitude amplification ignored': 'C22', 'RevKit oracles refused functions': 'C23', 'errors whose type is not': 'C20', 'IBM and AQT jobs that were still queued': 'C20', 'the AWS Braket client kept': 'C20', 'AWS Braket clients that ask': 'C20', 'qubits released after their': 'C19', 'IBM and AQT backends submitted': 'C19', 'a failed run of the IBM': 'C19', 'IBM, AQT and AWS Braket jobs': 'C19', 'probabilities of retrieved IBM': 'C19', 'measured values of cloud jobs': 'C19', 'IonQ jobs with released': 'C19', 'IonQBackend.get_probability of': 'C19', 'AQT jobs with an Rxx': 'C19', 'AQTBackend could not run': 'C19', 'the Azure Quantum backend measured': 'C19', 'Azure Quantum jobs with released': 'C19', 'results of Azure Quantum jobs': 'C19', 'the AWS Braket setups': 'C19', 'the LaTeX drawer defines': 'C18', 'ordered LaTeX drawings': 'C18', 'LaTeX drawings of circuits': 'C18', 'the drawers keep': 'C18', 'the drawers record': 'C18', 'default order of the wires': 'C18', 'the matplotlib drawer does': 'C18', 'matplotlib drawings of': 'C18', 'the bounded mapper': 'C07', 'math gates with different': 'C15', 'do not merge uniformly': 'C15', 'controlled gates and tensors': 'C15', 'refuse malformed qubit op': 'C16', 'qubit operators can be added': 'C16', 'equal QubitOperators have': 'C16', 'merging time evolutions': 'C16', 'time evolution gates can be': 'C17', 'time evolution under the zero': 'C16', 'the unitary simulator': 'C12', 'Python simulator evolves': 'C10', 'Python simulator adds up': 'C13', 'refuse bit strings with fewer': 'C09', 'measurements never pick': 'C09', 'set_wavefunction refuses': 'C08'}


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:', 'c4354b1..HEAD'], capture_output=True, text=True).stdout.splitlines()
    out = []
    for line in log:
        h, s = line.split(' ', 1)
        s = s[5:]
        k = [v for p, v in {**PROP, **MORE}.items() if s.startswith(p)]
        assert len(k) == 1, s
        out.append(f'fixed: property={k[0]} {h} {s}')
    d = json.load(open('/verif/known_findings.json'))
    d['fixed'] = out
    json.dump(d, open('/verif/known_findings.json', 'w'), indent=1)


main()
