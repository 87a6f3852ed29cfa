#!/usr/bin/env python3
"""P08: the dynamic array against a plain sequence, for random operation histories, allocation failures included."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round is a random history of up to 60 operations on one array (five element types, optional allocation failures), compared with std::vector after every step; non-trivial: distinct histories'
    b = vp.build('array', 'array_model.cpp', ['GEN_BUILD_DEBUG=1'])
    model.run(chk, b, 400000 if vp.THOROUGH else 24000, 'array')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P08')
