import os
import propgen

LEVEL = 'exploration'
TECHNIQUE = 'generated variables and accessors of every kind behind properties, read and written through instances and values of every kind; accessors log their calls, and after each operation every variable behind any property is compared with a snapshot; under ASan/UBSan with a lifetime ledger'
NOTE = 'Static and member properties, plain, constant and by accessors (getter by value, reference or const reference; setter in four parameter forms), own, inherited and shadowed, and defined again and again in random hierarchies of one name (harness/inherit.cpp).'
RULE = 'an evaluation is one get or set; distinct counts (property, instance form, value type and mode, way)'
ASSUMPTIONS = ['A getter that is not const may be refused for an instance held by value or reference: properties are read through a constant variant.']
MIN_EVALS = 20000


def run(ctx):
    for k in range(ctx.pick(1, 5)):
        d = ctx.work + '/gen%d' % k
        os.makedirs(d, exist_ok=True)
        files = propgen.generate(ctx.rng, d, ctx.pick(52, 80), 8)
        exe = ctx.build([(f, ['-I' + d]) for f in files] + [(ctx.src('props.cpp'), ['-I' + d, '-DROUND=%d' % k])] +
                        [(ctx.verif + '/lib/calls_group.cpp', ['-DGROUP=%d' % g]) for g in range(4)], exe='props%d' % k, opt='-O0')
        ctx.shards(exe, 8, ['--n', str(ctx.pick(40000, 300000))], timeout=400, prefix='k%d-' % k)
    inherit = ctx.build([ctx.src('inherit.cpp')], exe='inherit', opt='-O0')
    ctx.shards(inherit, 8, ['--n', str(ctx.pick(1600, 40000)), '--judge', 'properties'], timeout=ctx.pick(200, 400), prefix='inherit-')
