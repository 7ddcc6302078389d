"""Check driver: instances, violations, known findings, evidence."""
import json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.inst = []          # (rule, where, text)
        self.viol = []          # (rule, key, where, text)
        self.notes = []
        self.minima = []

    def ok(self, rule, where, text=""):
        self.inst.append((rule, where, text))

    def bad(self, rule, key, where, text):
        """key: stable identity (no line numbers) of the offending construct"""
        self.inst.append((rule, where, "VIOLATED: " + text))
        if not any(v[0] == rule and v[1] == key for v in self.viol):
            self.viol.append((rule, key, where, text))

    def judge(self, good, rule, key, where, text):
        if good:
            self.ok(rule, where, text)
        else:
            self.bad(rule, key, where, text)

    def note(self, s):
        self.notes.append(s)

    def need(self, rule, n):
        """at least n instances of the rule must have been analysed"""
        self.minima.append((rule, n))
