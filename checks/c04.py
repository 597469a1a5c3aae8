LEVEL = 'exploration'
TECHNIQUE = 'random interleavings of MetaType::construct/destruct with injected constructor and allocation failures under ASan/UBSan, judged by an object-lifetime ledger and an allocation monitor'
NOTE = 'Covers 45 kinds of type (arrays, over-aligned, move-only, copy-only, throwing) through plain, const and reference handles; every failure point inside the constructed elements is reachable by the injected faults.'
RULE = 'an evaluation is one construct or destruct call judged; distinct counts (kind, handle, way of construction, failure point)'
ASSUMPTIONS = ['the 45 kinds of lib/kinds.h stand for all types the library treats alike']
MIN_EVALS = 20000


def run(ctx):
    exe = ctx.build([ctx.src('metalife.cpp')] + ctx.kinds(), opt='-O0')
    ctx.shards(exe, 8, ['--n', str(ctx.pick(2400, 60000)), '--len', '60'], timeout=ctx.pick(250, 800))
