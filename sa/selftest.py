"""setup: the analyser loads the current tree"""
from common import *
eng = Engine(REPO)
for m in eng.modules:
    eng.module(m)
print("loaded", len(eng.modules), "modules;", len(entries(eng)), "entries")
