import os
import sys

from checks.c19 import WRAP

LEVEL = 'exploration'
TECHNIQUE = 'a program loads modules of every kind of symbol visibility in random orders and ways and lets them work on each other\'s values, classes and converters and unloads some; a model of what each must see, an ledger of object lifetimes and ASan/UBSan judge every step'
NOTE = 'Six modules and the program, built from one source with default and hidden visibility, with and without unique symbols, bound to themselves or not, loaded local or global; half of the histories unload and reload modules. Threads of all modules also race for the first uses of types, under ThreadSanitizer too.'
RULE = 'an evaluation is one fact a module reports, compared with the model; distinct counts histories'
ASSUMPTIONS = ['a module that has defined classes or methods, or whose variants are alive, is not unloaded: what it defined is its code']
MIN_EVALS = 100000

MODULES = [
    [],
    ['-fvisibility=hidden', '-fvisibility-inlines-hidden', '-fno-gnu-unique'],
    ['-fno-gnu-unique'],
    ['-fvisibility=hidden', '-fvisibility-inlines-hidden', '-DAT_LOAD=2'],
    ['-fno-gnu-unique'],
    ['-fvisibility=hidden', '-fvisibility-inlines-hidden', '-fno-gnu-unique'],
]

RACE_MODULES = [
    ['-fvisibility=hidden', '-fvisibility-inlines-hidden', '-fno-gnu-unique'],
    ['-fvisibility=hidden', '-fvisibility-inlines-hidden', '-fno-gnu-unique'],
    [],
    ['-fvisibility=hidden', '-fvisibility-inlines-hidden'],
    ['-fno-gnu-unique'],
]


def run_race(ctx, plan):
    """Modules used by several threads at once."""
    unit = os.path.join(ctx.verif, 'lib', 'modrace_unit.cpp')
    san_env = sys.modules[type(ctx).__module__].san_env
    for flavor, opt, n in plan:
        where = os.path.join(ctx.work, 'modrace_' + flavor)
        os.makedirs(where, exist_ok=True)
        b = ctx.builder(flavor=flavor, opt=opt, shared=True)
        mods = [['-DAT_LOAD=1'] + f if k == 3 else f for k, f in enumerate(RACE_MODULES)]
        objs, lib = ctx.compile(b, [(ctx.src('modrace.cpp'), []), (unit, ['-DMOD=0'])] + [(unit, ['-DMOD=%d' % (k + 1)] + f) for k, f in enumerate(mods)])
        b.link(lib, os.path.join(where, 'librtti.so'), flags=['-shared', '-Wl,-soname,librtti.so'], tail=WRAP)
        tail = ['-L' + where, '-lrtti', '-Wl,-rpath,' + where] + WRAP
        for k in range(len(mods)):
            b.link([objs[k + 2]], os.path.join(where, 'race%d.so' % (k + 1)), flags=['-shared'], tail=tail)
        host = b.link(objs[:2], os.path.join(where, 'modrace'), flags=['-rdynamic'], tail=tail + ['-ldl'])
        env = {'ASAN_OPTIONS': san_env('asan')['ASAN_OPTIONS'] + ':detect_odr_violation=0'} if flavor == 'asan' else None
        ctx.shards(host, 8, ['--n', str(n), '--modules', where], timeout=ctx.pick(250, 430), flavor=flavor, env=env, prefix='race-%s-' % flavor)


def run(ctx):
    unit = os.path.join(ctx.verif, 'lib', 'modules_unit.cpp')
    where = os.path.join(ctx.work, 'modules')
    os.makedirs(where)
    san_env = sys.modules[type(ctx).__module__].san_env
    b = ctx.builder(opt='-O0', shared=True)
    objs, lib = ctx.compile(b, [(ctx.src('modhost.cpp'), []), (unit, ['-DMOD=0'])] + [(unit, ['-DMOD=%d' % (k + 1)] + f) for k, f in enumerate(MODULES)])
    b.link(lib, os.path.join(where, 'librtti.so'), flags=['-shared', '-Wl,-soname,librtti.so'])
    tail = ['-L' + where, '-lrtti', '-Wl,-rpath,' + where]
    for k in range(6):
        b.link([objs[k + 2]], os.path.join(where, 'mod%d.so' % (k + 1)), flags=['-shared'] + (['-Wl,-Bsymbolic'] if k == 4 else []), tail=tail)
    host = b.link(objs[:2], os.path.join(where, 'modhost'), flags=['-rdynamic'], tail=tail + ['-ldl'])
    ctx.shards(host, 8, ['--n', str(ctx.pick(1600, 40000)), '--modules', where], timeout=ctx.pick(250, 430), flavor='asan',
               
               env={'ASAN_OPTIONS': san_env('asan')['ASAN_OPTIONS'] + ':detect_odr_violation=0'})
    run_race(ctx, [('asan', '-O0', ctx.pick(800, 12000)), ('none', '-O1', ctx.pick(3000, 60000))])
