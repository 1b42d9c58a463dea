"""Specification obligations: every class of /verif/spec that names the property."""
import os
from .common import *
from sa.oblig import SPEC_DIR, lit

SKIP = ('wire_ref', 'lib_models')


def modules():
    return sorted(n[:-3] for n in os.listdir(SPEC_DIR) if n.endswith('.py') and n[:-3] not in SKIP)


def names(prog, module):
    """the specifications of a module without resolving its imports"""
    m = prog.module('spec_' + module)
    for b in m.bindings.values():
        if b[0] == 'class' and b[1].module is m and 'code' in b[1].methods and 'spec' in b[1].methods:
            yield b[1]


def of(prop, *only):
    def rule(run):
        n = 0
        for mod in only or modules():
            if any(prop in lit(c, 'props', ()) for c in names(run.prog, mod)):
                n += run.specs(mod, lambda c: prop in lit(c, 'props', ()))
        run.notes.append('%d specification obligations' % n)
    return rule
