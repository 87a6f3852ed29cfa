#!/usr/bin/env python3
"""P06: construction functions build exactly what was asked for."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
def run(chk):
    chk.rule = 'one round builds a random tree through the construction functions (strings in exact-size buffers that are released afterwards, types and parameters shared between trees, every way of making bodies, lists and specifiers) together with an independent C++ text of the request; tokens of the serialization are compared with it, earlier trees are re-read, and what the parser accepts is parsed and compared too; non-trivial: distinct requests'
    model.run(chk, vp.build('upfront', 'upfront_model.cpp', ['GEN_BUILD_DEBUG=1']), 200000 if vp.THOROUGH else 20000, 'upfront')
    chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P06')
