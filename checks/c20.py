from checks.c19 import WRAP
from checks.c24 import run_race

LEVEL = 'exploration'
TECHNIQUE = 'threads using types for the first time, finding them by name, and registering, removing, querying and using converters, under ThreadSanitizer, ASan/UBSan and at full speed with delays injected at every lock operation; the history of every converter pair is checked for linearizability, ids for being one per type'
NOTE = 'Every case is a process of its own, so that first uses are first. Functor, function, method and reporting-method converters are mixed. Modules of one program race for the first uses of their types and converters as well.'
RULE = 'an evaluation is one judged event; distinct counts interleavings of lock operations'
ASSUMPTIONS = ['modules are not unloaded while their converters run']
MIN_EVALS = 50000


def run(ctx):
    for flavor, opt, n, threads in (('tsan', '-O0', ctx.pick(500, 8000), (2, 3, 6)),
                                    ('asan', '-O0', ctx.pick(600, 12000), (2, 4)),
                                    ('none', '-O1', ctx.pick(2000, 60000), (2, 4, 8))):
        exe = ctx.build([ctx.src('conctypes.cpp')], exe='conctypes_' + flavor, flavor=flavor, opt=opt, tail=WRAP)
        for t in threads:
            ctx.shards(exe, 8, ['--n', str(n), '--threads', str(t)], timeout=ctx.pick(200, 400), flavor=flavor, prefix='%s%d-' % (flavor, t))
    run_race(ctx, [('tsan', '-O0', ctx.pick(300, 6000)), ('none', '-O1', ctx.pick(1600, 60000))])
