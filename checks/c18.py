from checks.c19 import WRAP

LEVEL = 'exploration'
TECHNIQUE = 'random trees of deferred definitions (nested, throwing, looking at each other and at themselves) looked at in every way from one thread (ASan/UBSan) and from several (ThreadSanitizer, injected delays); run counters, completeness of what each observer sees, delivery of exceptions and absence of runs without need are judged'
NOTE = 'Every case is a process of its own. Innocuous calls (names, owners, finding a class by type) must not run anything; counts, lookups, iteration, attributes, bases, derived classes, constructors and forcing must, whichever is asked first.'
RULE = 'an evaluation is one judged observation; distinct counts trees and interleavings of lock operations'
ASSUMPTIONS = ['which other definitions a look may run is bounded by what the definitions themselves look at and by base classes']
MIN_EVALS = 30000


def run(ctx):
    exe = ctx.build([ctx.src('lazy.cpp')], exe='lazy', opt='-O0', tail=WRAP)
    ctx.shards(exe, 8, ['--n', str(ctx.pick(6000, 150000))], timeout=ctx.pick(200, 400))
    exe = ctx.build([ctx.src('lazy.cpp')], exe='lazy_mt', flavor='tsan', opt='-O1', tail=WRAP)
    for k, t in enumerate((2, 3, 6)):
        ctx.shards(exe, 8, ['--n', str(ctx.pick(500, 8000)), '--threads', str(t)], timeout=ctx.pick(200, 400), flavor='tsan', prefix='t%d-' % t)
