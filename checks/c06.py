LEVEL = 'exploration'
TECHNIQUE = 'random operation histories on real variants, compared after every operation with an independent model of the values'
NOTE = 'After every operation every variant of the pool is read back and compared with the model; holds for the histories run (20 operations, 45 kinds of held type, value/ref/const-ref). Copies are counted: moving, swapping and putting in an rvalue make none of a type that can be moved.'
RULE = ('evaluations are operations on the pool of variants after which every variant was compared with the model'
        ' (and the ledger of object lives updated); distinct counts (operation, kind and mode of both operands)')
ASSUMPTIONS = ['values of the 45 kinds of lib/kinds.h stand for all types the library treats alike (size, alignment,'
               ' copy/move abilities, arrays, pointers, references)']
MIN_EVALS = 20000


def run(ctx):
    exe = ctx.build([ctx.src('vhist.cpp')] + ctx.kinds(), opt='-O0')
    ctx.shards(exe, 8, ['--judge', 'value', '--n', str(ctx.pick(2400, 60000)), '--len', '70'], timeout=ctx.pick(250, 800))
