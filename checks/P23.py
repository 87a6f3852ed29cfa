#!/usr/bin/env python3
"""P23: memory and hash primitives against their definitions, on exact-size blocks at every alignment."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round fills, copies, moves, searches, hashes or aligns one random block whose end is the end of its heap block, and compares every byte with the definition; non-trivial: distinct sizes, offsets and overlaps'
    model.run(chk, vp.build('mem', 'mem_model.cpp', ['GEN_BUILD_DEBUG=1']), 8000000 if vp.THOROUGH else 600000, 'mem')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P23')
