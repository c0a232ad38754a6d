#!/usr/bin/env python3
"""writes findings/*.json: a minimised history for each recorded finding
   (/opt/venv/bin/python tools/mkreplays.py; run again with check.py --replay)"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYOA_SIM', '1')
sys.path[:0] = [HERE, os.environ.get('PYOA_REPO', '/repo')]
from sim import engine, props       # noqa: E402

with open(os.path.join(HERE, 'known_findings.json')) as f:
    left = {k['id']: k for k in json.load(f)['findings']}
# never generated by a check, so made by hand
CHAIN = {'S%d' % i: {'items': {'$ref': '#/definitions/S%d' % (i + 1)}} for i in range(400)}
CHAIN['S400'] = {'type': 'string'}
HAND = {'percent-encoded': {
    'prop': 'C01', 'mode': 'A', 'root': 'http://h.sim/r', 'transport': 'getter', 'locale': 'utf-8',
    'docs': {'http://h.sim/r': {'kind': 'full', 'style': {'fmt': 'json'}, 'doc': {
        'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {
            'a b': {'type': 'string'}, 'C': {'$ref': '#/definitions/a%20b'}}}}},
    'ops': [{'op': 'open', 'url': 'http://h.sim/r'}]}, 'array-index': {
    'prop': 'C01', 'mode': 'A', 'root': 'http://h.sim/r', 'transport': 'getter', 'locale': 'utf-8',
    'docs': {'http://h.sim/r': {'kind': 'full', 'style': {'fmt': 'json'}, 'doc': {
        'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {
            'A': {'allOf': [{'type': 'string'}, {'type': 'object'}]}}}}},
    'ops': [{'op': 'open', 'url': 'http://h.sim/r'},
            {'op': 'miss', 'url': 'http://h.sim/r', 'toks': ['definitions', 'A', 'allOf', '-1'],
             'kind': 'Schema'}]}, 'deep-chain': {
    'prop': 'C12', 'mode': 'A', 'root': 'http://h.sim/r', 'transport': 'getter', 'locale': 'utf-8',
    'docs': {'http://h.sim/r': {'kind': 'full', 'style': {'fmt': 'json'}, 'doc': {
        'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {
            'A': {'$ref': 'e.json#/definitions/S0'}}}},
             'http://h.sim/e.json': {'kind': 'lib', 'style': {'fmt': 'json'}, 'doc': {'definitions': CHAIN}}},
    'ops': [{'op': 'open', 'url': 'http://h.sim/r'}]}}


def save(pid, k, run, got, small):
    body = {'property': pid, 'seed': '1', 'run': run, 'hashseed': 0, 'group': 0,
            'violation': {'cls': got[0], 'msg': got[1]}, 'scenario': small}
    os.makedirs(os.path.join(HERE, 'findings'), exist_ok=True)
    with open(os.path.join(HERE, 'findings', '%s-%s.json' % (pid, k)), 'w') as f:
        json.dump(body, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(k, got[1])


for h, sc in HAND.items():
    pid = left.pop(h)['property']
    save(pid, h, 0, engine.classify(engine.isolated(props.REG[pid], sc)), sc)
i = 0
while left:
    pid = next(iter(left.values()))['property']
    p = props.REG[pid]
    sc = engine.normal(p.gen(engine.rng_for('1', pid, i)))
    sc['strict'] = True
    i += 1
    got = engine.classify(engine.isolated(p, sc))
    if got and got[0] in left:
        k = left.pop(got[0])
        small, _ = engine.minimise(p, sc, got[0])
        got = engine.classify(engine.isolated(p, small))
        save(pid, k['id'], i - 1, got, small)
