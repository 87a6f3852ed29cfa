#!/usr/bin/env python3
"""P24: the C++ members, overloads, operators and conversions act as the functions they stand for."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round does everything twice, once through members, overloads, operators, conversions, array forms of the variadic names or ranged loops and once through the functions: histories on strings, arenas, pools and builders, or every node of a constructed tree (looked at, converted, compared, duplicated, iterated, appended to); results, texts and states must agree, and looking must leave the tree as it was; non-trivial: distinct histories'
    model.run(chk, vp.build('wrap', 'wrap_model.cpp', ['GEN_BUILD_DEBUG=1', 'GEN_DONT_USE_FATAL=1']), 60000 if vp.THOROUGH else 8000, 'wrap')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P24')
