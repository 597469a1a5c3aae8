LEVEL = 'exploration'
TECHNIQUE = 'threads defining and looking up in the same containers under ThreadSanitizer, ASan/UBSan and at full speed, with delays injected at every lock operation; an offline checker judges the recorded history (visibility, stability, order, exactly one winner, monotone counts) against the contents that resulted'
NOTE = 'Every case is a process of its own. Stamps are relaxed atomics, so the recording orders nothing. Two writers of one attribute are judged only by what is there in the end.'
RULE = 'an evaluation is one judged observation; distinct counts interleavings of lock operations'
ASSUMPTIONS = ['a reference to an attribute is not read while another thread assigns that attribute']
MIN_EVALS = 100000
WRAP = ['-Wl,--wrap=%s' % f for f in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock',
                                     'pthread_rwlock_wrlock', 'pthread_rwlock_unlock')]


def run(ctx):
    for flavor, opt, n, threads in (('tsan', '-O1', ctx.pick(400, 6000), (2, 3, 6)),
                                    ('asan', '-O1', ctx.pick(600, 12000), (2, 4)),
                                    ('none', '-O1', ctx.pick(1500, 60000), (2, 4, 8))):
        exe = ctx.build([ctx.src('conc.cpp')], exe='conc_' + flavor, flavor=flavor, opt=opt, tail=WRAP)
        for t in threads:
            ctx.shards(exe, 8, ['--n', str(n), '--threads', str(t)], timeout=ctx.pick(200, 400), flavor=flavor, prefix='%s%d-' % (flavor, t))
