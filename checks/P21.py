#!/usr/bin/env python3
"""P21: code objects behave as plain values and lists."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round is a random history of appending, merging, duplicating, indexing, iterating, removing and comparing on bodies, parameters, specifiers or interfaces against plain lists, or a request made twice and again with one random choice changed: the same request must compare equal, requests of another meaning different, both ways around, and duplicates serialize identically; every object not asked to change is re-read; non-trivial: distinct histories'
    model.run(chk, vp.build('code', 'code_model.cpp', ['GEN_BUILD_DEBUG=1', 'GEN_DONT_USE_FATAL=1']), 150000 if vp.THOROUGH else 16000, 'code')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P21')
