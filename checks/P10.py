#!/usr/bin/env python3
"""P10: every allocator against an ownership model, for random operation histories up to and beyond exhaustion."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round is a random history on one allocator (heap, heap with analysis, arena, sub-arena, fixed arena, pool, virtual memory, context fallback); every block is checked for alignment, bounds, overlap, zeroed start and kept bytes; non-trivial: distinct histories'
    n = 40 if vp.THOROUGH else 1
    model.run(chk, vp.build('alloc', 'alloc_model.cpp', ['GEN_BUILD_DEBUG=1']), 8000 * n, 'alloc')
    model.run(chk, vp.build('allocha', 'alloc_model.cpp', ['GEN_BUILD_DEBUG=1', 'GEN_HEAP_ANALYSIS']), 2400 * n, 'heap analysis', prefix='analysis: ')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P10')
