import os

LEVEL = 'exploration'
TECHNIQUE = 'random sequences of calls over the whole public API with mostly wrong names, types, counts, indices, instances and null or empty arguments under ASan/UBSan; only the documented value or an exception of the library is accepted, and a refused call must leave variants, objects and metadata as they were'
NOTE = 'A pool of up to 8 variants of 58 kinds (empty, moved-from, null and typed pointers, references, unregistered, abstract classes, functions, members, arrays ...).'
RULE = 'an evaluation is one call; distinct counts sequences of calls and kinds'
ASSUMPTIONS = ['functions and properties are not defined with null pointers, and pointers held by variants are null or valid']
MIN_EVALS = 50000


def run(ctx):
    lib = os.path.join(ctx.verif, 'lib', 'hostile_group.cpp')
    exe = ctx.build([ctx.src('hostile.cpp')] + [(lib, ['-DGROUP=%d' % g]) for g in range(6)], exe='hostile', opt='-O0')
    ctx.shards(exe, 8, ['--n', str(ctx.pick(4000, 100000))], timeout=ctx.pick(300, 420))
