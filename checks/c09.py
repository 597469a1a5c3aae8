LEVEL = 'exploration'
TECHNIQUE = 'all pairs of pools of variants (same and different values of 57 types, held by value and by reference, copied and moved, arrays, pointers differing in const) compared under ASan/UBSan against a model of equality classes; hashes of equal ones compared; eq() against a model of the registered converters with call counts'
NOTE = ('Pools are random; every ordered pair of a pool is judged, which includes reflexivity, symmetry and (the model being an equivalence) '
        'transitivity. Values that are not equal to themselves (NaN) are not generated.')
RULE = 'an evaluation is one ordered pair compared; distinct counts pairs of descriptions (type, value, form) with related types'
ASSUMPTIONS = ['types not in the table are treated like those of the same shape in it']
MIN_EVALS = 100000


def run(ctx):
    exe = ctx.build([ctx.src('equality.cpp')], opt='-O0')
    ctx.shards(exe, 8, ['--pools', str(ctx.pick(40, 1500)), '--eqs', str(ctx.pick(20000, 400000))], timeout=ctx.pick(300, 850))
