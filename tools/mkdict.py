#!/usr/bin/env python3
"""Writes harness/codec/src/dict_gen.rs: the table of dictionary attributes the
checks use as oracle.  Run once, by hand; its output is committed (the checks never
regenerate it, so that a later change of the dictionaries or modules is noticed)."""
import re, glob, os, sys
REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
OUT = sys.argv[2] if len(sys.argv) > 2 else '/verif/harness/codec/src/dict_gen.rs'

def parse(path):
    attrs, vals = [], []
    for l in open(path):
        l = l.split('#')[0].split()
        if not l: continue
        if l[0] == 'ATTRIBUTE': attrs.append((l[1], int(l[2]), l[3], l[4] if len(l) > 4 else ''))
        elif l[0] == 'VALUE': vals.append((l[1], l[2], int(l[3], 0)))
    return attrs, vals

def kind(t, o):
    m = re.match(r'octets\[(\d+)\]', t)
    if m: return ('fixed', int(m[1]))
    k = {('string',''):'string', ('string','encrypt=1'):'userpw', ('string','has_tag'):'tstring',
         ('string','has_tag,encrypt=2'):'tunnelpw', ('octets',''):'octets', ('octets','concat'):'concat',
         ('ipaddr',''):'ipv4', ('ipv4prefix',''):'ipv4prefix', ('ipv6addr',''):'ipv6', ('ipv6prefix',''):'ipv6prefix',
         ('ifid',''):'ifid', ('date',''):'date', ('integer',''):'integer', ('integer','has_tag'):'tinteger',
         ('short',''):'short', ('vsa',''):'vsa'}[(t, o)]
    return ('fixed', 8) if k == 'ifid' else (k, 0)

rows = []
valrows = []
for d in sorted(glob.glob(REPO + '/dicts/dictionary.rfc*')):
    mod = d.split('.')[-1]
    attrs, vals = parse(d)
    src = open(f'{REPO}/radius/src/core/{mod}.rs').read()
    consts = re.findall(r'pub const (\w+_TYPE): AVPType = (\d+);\n(?:///.*\n)*pub fn delete_(\w+)\(', src)
    assert len(consts) == len(attrs), (mod, len(consts), len(attrs))
    for (name, num, t, o), (c, n, ident) in zip(attrs, consts):
        assert int(n) == num, (name, num, n)
        k, arg = kind(t, o)
        rows.append((mod, name, num, k, arg, c, ident))
    vc = [(n, v) for n, t, v in re.findall(r'pub const (\w+): ([\w:]+)\s*=\s*(\d+);', src.replace('\n    ', ' ')) if not t == 'AVPType']
    byattr = {}
    for a, n, v in vals: byattr.setdefault(a, []).append((n, v))
    flat = [(a, n, v) for a in sorted(byattr) for n, v in byattr[a]]
    assert len(flat) == len(vc), (mod, len(flat), len(vc))
    for (a, n, v), (c, cv) in zip(flat, vc):
        assert int(cv) == v, (a, n, v, c, cv)
        valrows.append((mod, a, n, v, c))
with open(OUT, 'w') as f:
    f.write('// Written by tools/mkdict.py; an oracle: do not regenerate from changed dictionaries.\n')
    f.write('use super::dict::*;\n\npub fn attrs() -> Vec<A> {\n    vec![\n')
    for mod, name, num, k, arg, c, ident in rows:
        if k == 'vsa':
            f.write(f'        a!(vsa {arg} {mod} "{name}" {num} {c} delete_{ident}),\n')
        elif k == 'concat':
            f.write(f'        a!(concat {arg} {mod} "{name}" {num} {c} add_{ident} lookup_{ident} delete_{ident}),\n')
        else:
            f.write(f'        a!({k} {arg} {mod} "{name}" {num} {c} add_{ident} lookup_{ident} lookup_all_{ident} delete_{ident}),\n')
    f.write('    ]\n}\n\n/// module, attribute, value name, registered number, constant\npub fn values() -> Vec<(&\'static str, &\'static str, &\'static str, u64, u64)> {\n    vec![\n')
    for mod, a, n, v, c in valrows:
        f.write(f'        ("{mod}", "{a}", "{n}", {v}, radius::core::{mod}::{c} as u64),\n')
    f.write('    ]\n}\n')
print(len(rows), 'attributes', len(valrows), 'values')
