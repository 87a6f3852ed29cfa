#!/usr/bin/env python3
"""P12: string queries and string builder histories against plain byte strings."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round evaluates every query on a random pair of strings held in exact-size buffers, or runs a random history of up to 44 operations on two builders (allocation failures included), compared with std::string after every step; non-trivial: distinct inputs and histories'
    model.run(chk, vp.build('str', 'str_model.cpp', ['GEN_BUILD_DEBUG=1']), 1200000 if vp.THOROUGH else 60000, 'str')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P12')
