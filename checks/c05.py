LEVEL = 'exploration'
TECHNIQUE = 'random operation histories on real variants under ASan/UBSan, judged online by an object-lifetime ledger and an allocation monitor'
NOTE = 'Every construction, use and destruction of tracked objects and every library allocation is observed; holds for the histories run, which sample all 20 operations over 45 kinds of held type. The moved-from objects that variant::swap leaves undestroyed are a listed known finding.'
RULE = ('evaluations are operations on the pool of variants after which every variant was compared with the model'
        ' (and the ledger of object lives updated); distinct counts (operation, kind and mode of both operands)')
ASSUMPTIONS = ['values of the 45 kinds of lib/kinds.h stand for all types the library treats alike (size, alignment,'
               ' copy/move abilities, arrays, pointers, references)']
MIN_EVALS = 20000


def run(ctx):
    exe = ctx.build([ctx.src('vhist.cpp')] + ctx.kinds(), opt='-O0')
    ctx.shards(exe, 8, ['--judge', 'life', '--n', str(ctx.pick(2400, 60000)), '--len', '70'], timeout=ctx.pick(250, 800))
