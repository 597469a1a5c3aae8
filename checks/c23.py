import concurrent.futures as cf
import os

LEVEL = 'exploration'
TECHNIQUE = 'programs whose static initialisers, static and thread-local destructors and exit handlers follow random scripts, linked in random orders against the static and the shared library, under ASan/UBSan; an offline checker judges the event log of every run (each value made once and destroyed once, everything registered seen before main, in main and by destructors)'
NOTE = 'Six files plus the library; initialisers with and without priorities, constructor functions, RTTI_REGISTER, variants in files, functions, templates, inline and thread-local; exit from main, from deep inside, from another thread and by the end of the last thread.'
RULE = 'an evaluation is one event of a log; distinct counts programs with scripts and ways to exit'
ASSUMPTIONS = ['destructors use metadata only if it was registered before their object was made; other objects only handle variants']
MIN_EVALS = 100000


def run(ctx):
    lib = lambda f: os.path.join(ctx.verif, 'lib', f)
    where = os.path.join(ctx.work, 'programs')
    os.makedirs(where)
    units = [(lib('startup_unit.cpp'), ['-DUNIT=%d' % u]) for u in range(6)]
    rest = [(lib('startup_core.cpp'), []), (lib('startup_main.cpp'), [])]
    builders = [ctx.builder(opt='-O0', shared=s) for s in (False, True)]
    objs = [ctx.compile(b, units + rest) for b in builders]
    (static, static_lib), (shared, shared_lib) = objs
    rng = ctx.rng
    jobs = []
    for k in range(ctx.pick(10, 40)):
        # objects of the program and of the library in any order
        o = static + static_lib
        if k == 1:
            o = static_lib + static
        if k > 1:
            o = list(o)
            rng.shuffle(o)
        jobs.append((builders[0], o, 'prog_static%d' % k, ['-rdynamic'] if k % 2 else []))
    b = builders[1]
    soname = ['-shared', '-Wl,-soname,librtti.so']
    b.link(shared_lib, os.path.join(where, 'librtti.so'), flags=soname)
    for k in range(ctx.pick(6, 24)):
        o = shared[:6]
        rng.shuffle(o)
        cut = 0 if k == 0 else rng.randint(0, 5)
        inside, outside = o[:cut], o[cut:]
        core, main = shared[6], shared[7]
        tail = ['-L' + where, '-lrtti']
        flags = ['-rdynamic']
        if inside:
            b.link(inside + ([core] if k % 2 else []), os.path.join(where, 'libparts%d.so' % k),
                   flags=['-shared', '-Wl,-soname,libparts%d.so' % k], tail=tail)
            libs = ['-lparts%d' % k, '-lrtti']
            if rng.random() < .5:
                libs.reverse()
            tail = ['-L' + where] + libs
        rest_ = outside + [main] + ([] if inside and k % 2 else [core])
        rng.shuffle(rest_)
        jobs.append((b, rest_, 'prog_shared%d' % k, flags, tail))
    with cf.ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(j[0].link, j[1], os.path.join(where, j[2]), j[3], j[4] if len(j) > 4 else ()) for j in jobs]:
            f.result()
    runner = ctx.build([ctx.src('startup_run.cpp')], exe='startup_run', flavor='none')
    ctx.shards(runner, 8, ['--n', str(ctx.pick(1200, 24000)), '--programs', where], timeout=ctx.pick(250, 430), flavor='asan')
