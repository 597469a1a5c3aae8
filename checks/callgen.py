# Generates the functions that the call checks register: every parameter type in every
# form on its own, and random signatures of up to ten parameters.
NV = 13
FORMS = ['', '&', ' const &', '&&']
RETS = 14


def generate(rng, outdir, extra, groups):
    fns = []
    for v in range(NV):
        for f in range(4):
            fns.append((rng.randrange(10), rng.randrange(RETS), [(v, f)]))
    for i in range(extra):
        kind = rng.randrange(10)
        n = rng.choice([0, 0, 2, 2, 3, 3, 4, 5, 6, 8, 9, 10 if kind < 3 else 9])
        fns.append((kind, i % RETS if i < 2 * RETS else rng.randrange(RETS), [(rng.randrange(NV), rng.choice([0, 0, 1, 2, 2, 3])) for _ in range(n)]))
    files = []
    for g in range(groups):
        path = '%s/calls_fns%d.cpp' % (outdir, g)
        with open(path, 'w') as o:
            o.write('#include "calls.h"\nnamespace calls {\nvoid register_functions%d()\n{\n' % g)
            for i, (k, r, ps) in enumerate(fns):
                if i % groups == g:
                    o.write('    reg<%d, %d, %d%s>();\n' % (i, k, r, ''.join(', V%d%s' % (v, FORMS[f]) for v, f in ps)))
            o.write('}\n} // namespace calls\n')
        files.append(path)
    with open(outdir + '/calls_fns.h', 'w') as o:
        o.write('namespace calls {\n')
        for g in range(groups):
            o.write('void register_functions%d();\n' % g)
        o.write('inline void register_functions()\n{\n')
        for g in range(groups):
            o.write('    register_functions%d();\n' % g)
        o.write('}\n} // namespace calls\n')
    return files
