#!/usr/bin/env python3
"""P14: tables and trees against plain lists, written and parsed again."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one case is a table parsed, written and parsed again (or made by hand, malformed, corrupted), a history on a tree, or a set of numbers or strings printed; non-trivial: distinct histories'
    model.run(chk, vp.build('csv', 'csv_model.cpp', ['GEN_BUILD_DEBUG=1']), 400000 if vp.THOROUGH else 24000, 'csv', timeout=600)
    chk.finish(min_evals=20000, min_distinct=15000)
vp.main(run, 'P14')
