#!/usr/bin/env python3
"""P13: formatting and number conversion against the C library, in guarded buffers of every size."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round formats one random conversion (or several) into buffers that are ample, exact, one short and tiny, or converts and reads back a number, and compares with the C library; non-trivial: distinct format strings and values'
    model.run(chk, vp.build('fmt', 'fmt_model.cpp', ['GEN_BUILD_DEBUG=1']), 4000000 if vp.THOROUGH else 400000, 'fmt')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P13')
