#!/usr/bin/env python3
"""P15: files, streams, contents, builders and the scanner against the bytes they are to hold, with faults at the system calls."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('write', 'pwrite', 'read', 'pread', 'open', 'close'))]
def run(chk):
    chk.rule = 'one case is a history of file, stream, builder or scanner operations in a scratch folder, with faults (short, interrupted, full, failing) at chosen system calls; non-trivial: distinct histories'
    n = 60000 if vp.THOROUGH else 6000
    model.run(chk, vp.build('file', 'file_model.cpp', ['GEN_BUILD_DEBUG=1'], extra=WRAP), n, 'stop at failure', timeout=600)
    model.run(chk, vp.build('file-log', 'file_model.cpp', ['GEN_BUILD_DEBUG=1', 'GEN_DONT_USE_FATAL'], extra=WRAP), n // 2, 'log failures', timeout=600, prefix='log ')
    chk.finish(min_evals=8000, min_distinct=5000)
if __name__ == '__main__': vp.main(run, 'P15')
