from checks.c19 import WRAP

LEVEL = 'exploration'
TECHNIQUE = 'about thirty kinds of reading operations on shared metadata, shared objects and shared constant variants from several threads under ThreadSanitizer, ASan/UBSan and at full speed with delays injected at every lock operation; every result is compared with what the same operation gives alone'
NOTE = 'Every case is a process of its own, the operations are run alone in a process of their own, and once more after the threads, so that whatever is cached on first use is first used concurrently. One case in three defines the classes lazily.'
RULE = 'an evaluation is one compared result; distinct counts interleavings of lock operations'
ASSUMPTIONS = ['member functions of user classes called concurrently on one object are themselves free of races']
MIN_EVALS = 50000


def run(ctx):
    for flavor, opt, n, threads in (('tsan', '-O0', ctx.pick(300, 6000), (2, 4, 8)),
                                    ('asan', '-O0', ctx.pick(400, 8000), (4,)),
                                    ('none', '-O0', ctx.pick(1500, 40000), (2, 8))):
        exe = ctx.build([ctx.src('concread.cpp')], exe='concread_' + flavor, flavor=flavor, opt=opt, tail=WRAP)
        for t in threads:
            ctx.shards(exe, 8, ['--n', str(n), '--threads', str(t)], timeout=ctx.pick(200, 400), flavor=flavor, prefix='%s%d-' % (flavor, t))
