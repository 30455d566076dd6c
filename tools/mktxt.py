#!/usr/bin/env python3
"""Flatten oracle/ucd.json to the line format the Rust harness reads."""
import json, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = json.load(open(os.path.join(here, 'oracle/ucd.json')))
def lines():
    for p, r in o['enum'].items():
        for a, b, v in r: yield f'E\t{p}\t{a}\t{b}\t{v}'
    for p, r in o['bin'].items():
        for a, b in r: yield f'B\t{p}\t{a}\t{b}'
    for c, d in o['dm']: yield '\t'.join(['D', str(c)] + [str(x) for x in d])
    for c, n in o['na']: yield f'N\t{c}\t{n}'
    for a, b, p in o['nr2']: yield f'R\t{a}\t{b}\t{p}'
    for k, l in enumerate(o['jamo']):
        for x in l: yield f'J\t{k}\t{x}'
def write(path):
    with open(path, 'w') as f:
        for l in lines(): f.write(l + '\n')
if __name__ == '__main__': write(sys.argv[1])
