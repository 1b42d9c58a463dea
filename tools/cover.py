"""cover.py: functions of the package no specification enters (development tool)"""
import sys
sys.path.insert(0, '/verif/tools'); sys.path.insert(0, '/verif'); sys.argv = ['x']
sys.setrecursionlimit(20000)
import auto
from sa.oblig import load
cov = set().union(*auto.coverage().values())
p = load('/repo')
by = {}
for f in p.all_functions():
    if f.qual not in cov and 'models.' not in f.qual and not f.qual.startswith('spec_'):
        by.setdefault(f.module.rel, []).append(f.qual.split(':')[-1])
for k in sorted(by):
    if '_pb2' not in k:
        print(k.replace('src/python/ficus/', ''), len(by[k]), ' '.join(by[k]))
