import checks_api
import checks_wait
import checks_sync, checks_misc, checks_io, checks_life, checks_own, checks_sched, checks_run, checks_core

CHECKS = {}
for m in (checks_api, checks_wait, checks_sync, checks_misc, checks_io, checks_life, checks_own, checks_sched, checks_run, checks_core):
    CHECKS.update(m.CHECKS)

EXPLANATION = (
    'Static analysis of the LLVM IR that clang makes of the current sources (no optimisation but mem2reg). A '
    'path-sensitive abstract interpreter (property simulation) follows every entry point through its internal calls, '
    'joins and widens at loops, forgets at every suspension what other coroutines may change, and checks the rules '
    'below on every path. Nothing is executed and no solver is used.')

ASSUMPTIONS = {'*': [
    'callers pass valid pointers where they pass non-null ones, and do not pass memory of the runtime as buffers',
    'the context switch itself and the C library behave as documented',
]}
