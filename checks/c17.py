import manygen
LEVEL = 'exploration'
TECHNIQUE = 'random histories of setting attributes and enum elements (new, overwritten, aliased, by every value category, with throwing copies, failing allocations and additions during iteration) against an ordered map; every reference ever handed out is read again after each step, under ASan/UBSan with a lifetime ledger'
NOTE = 'Attributes of a namespace, a class and an enum and the elements of the enum, 10 to 150 operations each in a process of its own, up to thousands of entries.'
RULE = 'an evaluation is one comparison of an entry, count, lookup or iteration with the model; distinct counts histories'
ASSUMPTIONS = []
MIN_EVALS = 50000


def run(ctx):
    exe = ctx.build([ctx.src('attrs.cpp')], opt='-O1')
    ctx.shards(exe, 8, ['--n', str(ctx.pick(2000, 60000))], timeout=ctx.pick(300, 850))
    many = manygen.build(ctx, 'ATTRIBUTES')
    ctx.shards(many, ctx.pick(4, 40), ['--judge', 'attributes'], timeout=300, prefix='many-')
