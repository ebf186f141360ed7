#!/usr/bin/env python3
"""Regenerates src/registry.rs, the list of contracts for the native runner, from src/contracts/*.rs."""
import re, os, glob
here = os.path.dirname(os.path.abspath(__file__))
KINDS = ('contract', 'must_trap', 'batch', 'convs', 'arith', 'rel', 'div_traps', 'place', 'ctl', 'wasi', 'polled', 'ran')
out = []
for p in sorted(glob.glob(here + '/src/contracts/*.rs')):
    m = os.path.basename(p)[:-3]
    if m == 'mod':
        continue
    s = open(p).read()
    for k, n in re.findall(r'^(%s)! ?[({] ?(?:@ )?(\w+)' % '|'.join(KINDS), s, re.M):
        kind = 'MustTrap' if k in ('must_trap', 'div_traps') else 'Ensures'
        out.append('    Entry { name: "%s::%s", kind: Kind::%s, body: %s::%s::body::<Replay> },' % (m, n, kind, m, n))
    for n in re.findall(r'^// native-contract: (\w+)$', s, re.M):
        out.append('    Entry { name: "%s::%s", kind: Kind::Ensures, body: %s::%s::body::<Replay> },' % (m, n, m, n))
open(here + '/src/registry.rs', 'w').write('''//! Generated by gen_registry.py.
use crate::contracts::*;
use crate::nd::Replay;
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Ensures,
    MustTrap,
}
pub struct Entry {
    pub name: &'static str,
    pub kind: Kind,
    pub body: fn(&mut Replay),
}
pub const TABLE: &[Entry] = &[
%s
];
''' % '\n'.join(out))
print(len(out), 'contracts')
