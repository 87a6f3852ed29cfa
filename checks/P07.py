#!/usr/bin/env python3
"""P07: construction functions refuse ill-formed requests without side effects."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round makes one call of one construction function with no, one or two arguments that break its contract (missing or empty names, null or wrong-kind nodes taken from a pool of every kind, disallowed entries, wrong counts, operators with wrong arity), built so that a refusal returns the invalid code (GEN_DONT_USE_FATAL) and, separately, so that it stops (debug); a broken call must be refused, every byte of every node made before must stay as it was, valid calls must succeed; non-trivial: distinct calls'
    n = 400000 if vp.THOROUGH else 24000
    model.run(chk, vp.build('reject', 'reject_model.cpp', ['GEN_DONT_USE_FATAL=1', 'GEN_BUILD_DEBUG=0']), n, 'reject')
    model.run(chk, vp.build('rejectd', 'reject_model.cpp', ['GEN_BUILD_DEBUG=1']), n // 3, 'reject_debug', prefix='debug: ')
    chk.finish(min_evals=5000, min_distinct=3000)
vp.main(run, 'P07')
