#!/usr/bin/env python3
"""P11: the string cache against an exact table of texts, across growth, colliding checksums and several contexts."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round interns up to 20000 texts (repeats, prefixes, one-bit variations, binary, checksum collisions, lengths around the limit and the arena size) in one or two contexts; every earlier string is re-checked for bytes and address; non-trivial: distinct histories'
    model.run(chk, vp.build('intern', 'intern_model.cpp', ['GEN_BUILD_DEBUG=1']), 20000 if vp.THOROUGH else 800, 'intern', timeout=600)
    chk.finish(min_evals=300, min_distinct=300)
vp.main(run, 'P11')
