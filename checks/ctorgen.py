# Generates classes whose constructors have random signatures, and their registration.
from callgen import NV, FORMS

TR = [('CanCopy | CanMove | MoveNoexcept', 4), ('CanCopy | CanMove | MoveNoexcept | CanDefault', 4), ('CanCopy | CanMove | MoveNoexcept', 4),
      ('CanCopy', 3), ('CanMove | MoveNoexcept', 4), ('CanCopy | CanMove', 2), ('CanMove', 1)]


def generate(rng, outdir, count, groups):
    classes = []
    for c in range(count):
        flags = rng.choices([f for f, _ in TR], [w for _, w in TR])[0]
        size = rng.choice([4, 8, 12, 24, 80])
        align = rng.choice([4, 4, 4, 8, 32])
        poly = rng.random() < .5 and align <= 8
        ctors, used = [], {}
        for _ in range(rng.randrange(8)):
            n = rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 9, 10])
            vs = tuple(rng.randrange(NV) for _ in range(n))
            forms = tuple(rng.choice([0, 0, 1, 2, 2, 3]) for _ in range(n))
            if vs in used and (n > 1 or 0 in used[vs] or forms[0] == 0 or forms[0] in used[vs]):
                continue
            used.setdefault(vs, set()).add(forms[0])
            ctors.append((rng.random() < .4, rng.choice(['', '', '', 'make', 'build']), list(zip(vs, forms))))
            if n == 1 and forms[0] and rng.random() < .7:      # overloads on the kind of reference
                for f in rng.sample([1, 2, 3], 3):
                    if f not in used[vs]:
                        used[vs].add(f)
                        ctors.append((rng.random() < .4, rng.choice(['', '', '', 'make']), [(vs[0], f)]))
        classes.append((flags, size, align, poly, ctors, rng.random() < .5))
    with open(outdir + '/ctor_classes.h', 'w') as o:
        o.write('#pragma once\n#include "ctors.h"\nnamespace calls {\n')
        for i, (flags, size, align, poly, ctors, dflt) in enumerate(classes):
            t = 'Tr<%d, %d, %s, %d>' % (1000 + i, size, flags, align)
            o.write('struct C%d : %s, CtorTag\n{\n    explicit C%d(Raw r) : Tr(r.v) {}\n' % (i, t, i))
            if dflt:
                o.write('    C%d() : Tr(fresh()) { entered<%d>(); }\n' % (i, i * 100 + 99))
            for k, (expl, name, ps) in enumerate(ctors):
                o.write('    %sC%d(%s) : Tr(fresh()) { entered<%d%s>(%s); }\n' % (
                    'explicit ' if expl else '', i, ', '.join('V%d%s a%d' % (v, FORMS[f], n) for n, (v, f) in enumerate(ps)), i * 100 + k,
                    ''.join(', V%d%s' % (v, FORMS[f]) for v, f in ps), ', '.join('a%d' % n for n in range(len(ps)))))
            o.write('%s};\nstruct D%d : C%d\n{\n    explicit D%d(Raw r) : C%d(r) {}\n%s};\nCTOR_CLASS(%d)\n' % (
                '    DECLARE_CLASSINFO\n' if poly else '', i, i, i, i, '    DECLARE_CLASSINFO\n' if poly else '', i))
        o.write(''.join('void register_ctors%d();\n' % g for g in range(groups)))
        o.write('inline void register_ctors() { %s }\n} // namespace calls\n' % ' '.join('register_ctors%d();' % g for g in range(groups)))
    files = []
    for g in range(groups):
        path = '%s/ctors%d.cpp' % (outdir, g)
        files.append(path)
        with open(path, 'w') as o:
            o.write('#include "ctor_classes.h"\nnamespace calls {\nvoid register_ctors%d()\n{\n' % g)
            for i, (flags, size, align, poly, ctors, dflt) in enumerate(classes):
                if i % groups != g:
                    continue
                order = list(range(len(ctors)))
                if ctors and rng.random() < .4:
                    order.insert(rng.randrange(len(order) + 1), rng.choice(order))    # a repeated definition
                o.write('    {\n        auto o = describe_class<C%d, D%d>(%d, %s);\n' % (i, i, i, 'true' if poly else 'false'))
                if order == sorted(order) and rng.random() < .3:
                    o.write('        { auto g = rtti::global_define(); g._namespace("ctors")._class<C%d>("C%d")\n' % (i, i))
                else:
                    o.write('        { auto g = rtti::global_define(); g._class<C%d>("ctors_C%d")\n' % (i, i))
                for k in order:
                    _, name, ps = ctors[k]
                    o.write('            ._constructor<%s>(%s)\n' % (', '.join('V%d%s' % (v, FORMS[f]) for v, f in ps), '"%s"' % name if name else ''))
                o.write('            ; }\n')
                for k in order:
                    _, name, ps = ctors[k]
                    o.write('        o.ctors.push_back(describe<C%d, %d%s>("%s"));\n' % (i, i * 100 + k, ''.join(', V%d%s' % (v, FORMS[f]) for v, f in ps), name))
                if poly:
                    o.write('        { auto g = rtti::global_define(); g._class<D%d>("ctors_D%d")._base<C%d>(); }\n' % (i, i, i))
                o.write('        classes().push_back(o);\n    }\n')
            o.write('}\n} // namespace calls\n')
    return files
