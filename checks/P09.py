#!/usr/bin/env python3
"""P09: the hash table against a plain map, for random operation histories."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round is a random history of up to 150 operations on one table (small, random, colliding and extreme keys; three value types), compared with std::map, every key ever used included; non-trivial: distinct histories'
    b = vp.build('hash', 'hash_model.cpp', ['GEN_BUILD_DEBUG=1', 'GEN_SUPPORT_CPP_REFERENCES=1'])
    model.run(chk, b, 200000 if vp.THOROUGH else 12000, 'hash')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P09')
