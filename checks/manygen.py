# builds harness/many.cpp for one of its parts
def build(ctx, part):
    d = ['-DMANY_' + part]
    srcs = [(ctx.src('many.cpp'), d)]
    if part in ('ITEMS', 'CONVERTERS', 'GRAPH'):
        srcs += [(ctx.verif + '/lib/many_group.cpp', d + ['-DGROUP=%d' % g]) for g in range(8)]
    return ctx.build(srcs, exe='many', opt='-O0')


# and harness/deep.cpp
def deep(ctx, part):
    d = ['-DDEEP_' + part]
    srcs = [(ctx.src('deep.cpp'), d)] + [(ctx.verif + '/lib/deep_group.cpp', d + ['-DGROUP=%d' % g]) for g in range(4)]
    return ctx.build(srcs, exe='deep', opt='-O0')
