LEVEL = 'fault_enumeration'
TECHNIQUE = 'fault injection at every throw point and every allocation of every operation (counted in a clean run, then failed one by one) under ASan/UBSan, judged by snapshots of all variants, an object-lifetime ledger and an allocation monitor'
NOTE = ('For each operation and pair of kinds the throw and allocation points found in a clean run are all failed; pairs of kinds are '
        'sampled (every kind occurs in every operation in both roles). Single faults only. Every allocation of 45 first uses of types, variants, converters, classes '
        'and their members is failed too, each in a process that has not used them before.')
RULE = 'an evaluation is one run of an operation with one chosen point failing (or armed, for operations that must not throw); distinct counts (operation, kinds, way of passing, point)'
ASSUMPTIONS = ['the 45 kinds of lib/kinds.h stand for all types the library treats alike', 'a failure in a clean run is possible at the same places as in a failing run up to the first failure']
MIN_EVALS = 5000


def run(ctx):
    exe = ctx.build([ctx.src('faults.cpp'), ctx.src('faults_api.cpp')] + ctx.kinds(), opt='-O0')
    ctx.shards(exe, 8, ['--rounds', str(ctx.pick(10, 300))], timeout=ctx.pick(250, 800))
    first = ctx.build([ctx.src('faults_first.cpp')], exe='faults_first', opt='-O0')
    ctx.shards(first, 8, [], timeout=300, prefix='first-')
