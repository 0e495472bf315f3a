#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known-findings.txt from the fix: commits of /repo (development helper, not used by the checks)."""
import os, subprocess, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('StackVector and StackArray const', 'C08'), ('const rbegin/rend did not compile', 'C05'), ('FixedVector size was wrong', 'C07'), ('leaked elements when one of the copies', 'C07'), ('leaked the elements', 'C06'), ('destroyed elements twice', 'C07'),
       ('copied its argument', 'C06'), ('FixedVector', 'C05'), ('HybridVector', 'C05'), ('Bitset ordering', 'C03'), ('AppendBits', 'C02'), ('Bitset::Write', 'C02'), ('Bitset iterator', 'C04'),
       ('moving a Stack', 'C06'), ('StackVector size', 'C07'), ('StackArray leaked', 'C07'), ('StackVector', 'C08'), ('StackArray', 'C08'),
       ('MemoryPool move assignment', 'C10'), ('MemoryPool kept', 'C10'), ('MemoryPool', 'C09'), ('moving a Connection', 'C12'), ('moved Signal', 'C12'), ('Signal', 'C11'),
       ('Result', 'C13'), ('PrivateImpl', 'C14'), ('MovableValue', 'C15'), ('MovableLiteral', 'C15'), ('CallOnExit', 'C16'), ('FunctionRef', 'C17')]
extra = os.path.join(H, 'tools', 'findings_map.txt')
if os.path.exists(extra):
    MAP = [tuple(l.rstrip('\n').split('\t')) for l in open(extra) if l.strip()] + MAP
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '6a56fc1..HEAD'], stdout=subprocess.PIPE, text=True, check=True).stdout
path = os.path.join(H, 'known-findings.txt')
keep = [l for l in open(path) if l.startswith('KNOWN-FINDING')] if os.path.exists(path) else []
with open(path, 'w') as f:
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if not s.startswith('fix: '): continue
        for k, p in MAP:
            if k in s: break
        else:
            raise SystemExit('no property for ' + s)
        f.write('fixed: property=%s %s %s\n' % (p, h, s[5:]))
    f.writelines(keep)
