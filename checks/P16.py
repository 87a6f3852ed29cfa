#!/usr/bin/env python3
"""P16: context lifecycle histories with a ledger of every allocation."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round is a random history of init, set_context, work, interning, macro registration, reset and deinit over up to four contexts with default or user-supplied (ledgered) allocators; every object made is re-serialized after later steps and compared with the text of a fresh context, and every block of every allocator is accounted for; non-trivial: distinct histories'
    model.run(chk, vp.build('ctx', 'ctx_model.cpp', ['GEN_BUILD_DEBUG=1']), 40000 if vp.THOROUGH else 3000, 'ctx')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P16')
