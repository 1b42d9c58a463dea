"""Shared context of a check run: the parsed program, the specification modules, the backend facts."""
import functools
from sa.terms import *
from sa.terms import LIMIT
from sa.compare import verdict, vocab_only, clip
from sa.oblig import Result, OK, BAD, OPEN, load, spec_classes, decide
from sa.program import AnalysisError
from sa.rust import Backend


class Run:
    def __init__(self, repo):
        self.repo = repo
        self.prog = load(repo)
        self._backend = None
        self.results = []
        self.notes = []
        self.functions = set()

    @property
    def backend(self):
        if self._backend is None:
            self._backend = Backend(self.repo)
        return self._backend

    def add(self, rule, construct, where, status, detail='', key=None):
        self.results.append(Result(rule, construct, where, status, detail, key))

    def ok(self, rule, construct, where, detail=''):
        self.add(rule, construct, where, OK, detail)

    def bad(self, rule, construct, where, detail='', key=None):
        self.add(rule, construct, where, BAD, detail, key)

    def open(self, rule, construct, where, detail=''):
        self.add(rule, construct, where, OPEN, detail)

    def equal(self, rule, construct, where, got, want, what=''):
        """one obligation: two normal forms denote the same value"""
        if got is want:
            if got.unk:
                return self.open(rule, construct, where, what + ': equal up to unsupported constructs')
            return self.ok(rule, construct, where, what)
        LIMIT[0] = 300000
        ds, dec = verdict(got, want)
        hard = ds if dec else []
        if hard:
            self.bad(rule, construct, where, (what + ' -- ' if what else '') + hard[0].text())
        else:
            self.open(rule, construct, where, what + ': not decided' + (' (' + ds[0].text(4) + ')' if ds else ''))

    def specs(self, module, only=None):
        """decide every obligation of a specification module"""
        n = 0
        for c in spec_classes(self.prog, 'spec_' + module):
            if only and not only(c):
                continue
            self.results.append(decide(self.prog, c))
            n += 1
        return n
