#!/usr/bin/env python3
"""P19: token formatting and untyped code against plain substitution."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round formats one random template (keys, values and template in exact-size buffers) through token_fmt, token_fmt_va with a buffer of any size, untyped_token_fmt, code_fmt, untyped_str or untyped_fmt, compares every byte with plain substitution, and re-reads code made in earlier rounds; non-trivial: distinct requests'
    model.run(chk, vp.build('tokfmt', 'tokfmt_model.cpp', ['GEN_BUILD_DEBUG=1']), 1000000 if vp.THOROUGH else 40000, 'tokfmt')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P19')
