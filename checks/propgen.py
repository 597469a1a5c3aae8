# Generates a class hierarchy and a namespace full of properties of every kind.
from callgen import FORMS

MEMBER_OF_HOST, MEMBER_OF_BASE = 3, 4
COPY_ONLY, MOVE_ONLY = 2, 3


def generate(rng, outdir, count, groups):
    P = []
    for i in range(count):
        place = rng.choice([0, 1, 2, 3, 3, 3, 4, 4])
        v = i % 13 if i < 26 else rng.randrange(13)
        member = place >= 3
        if v == MOVE_ONLY and member:
            v = 5
        accessor = rng.random() < .5
        const = not accessor and (rng.random() < .25 or v in (COPY_ONLY, MOVE_ONLY))
        get_form = rng.choice([0, 1, 2, 2])
        if v == MOVE_ONLY and get_form == 0:
            get_form = 2
        get_const = member and get_form != 1 and rng.random() < .7
        set_form = rng.choice([0, 0, 1, 2, 2, 3])
        if v == MOVE_ONLY:
            set_form = rng.choice([0, 3, 3])
        P.append([i, place, v, accessor, const, get_form, get_const, set_form, 'p%d' % i])
    # names defined both in the class and in its base
    bases = [p for p in P if p[1] in (2, 4)]
    hosts = [p for p in P if p[1] in (1, 3)]
    for a, b in zip(rng.sample(bases, min(3, len(bases))), rng.sample(hosts, min(3, len(hosts)))):
        a[8] = b[8] = 'shared%d' % a[0]

    def field(p):
        i, place, v, accessor, const = p[:5]
        return 'Box<V%d> m%d;' % (v, i) if accessor else 'V%d %sm%d;' % (v, 'const ' if const else '', i)

    def init(p):
        i, place, v, accessor = p[:4]
        make = 'Make<V%d>::make(p + %d)' % (v, i)
        return 'm%d(%s)' % (i, make if accessor else '*' + make if v != MOVE_ONLY else 'std::move(*%s)' % make)

    def methods(p, static):
        i, place, v, accessor, const, gf, gc, sf, name = p
        if not accessor:
            return ''
        obj = '(*m%d.p)' % i if not static else '(*g%d.p)' % i
        box = 'm%d' % i if not static else 'g%d' % i
        self = 'nullptr' if static else 'this'
        pre = 'inline ' if static else ''
        g = '    %sV%d%s get%d()%s { accessed(%d, %s, %s); return %s; }\n' % (
            pre, v, FORMS[gf], i, ' const' if gc else '', 2 * i, self, 'true' if gc else 'false', obj)
        s = '    %svoid set%d(V%d%s x) { given<V%d%s>(%d, %s, x); %s.store(%s); }\n' % (
            pre, i, v, FORMS[sf], v, FORMS[sf], 2 * i + 1, self, box, 'std::move(x)' if sf == 3 or v == MOVE_ONLY else 'std::as_const(x)')
        return g + s

    with open(outdir + '/props_gen.h', 'w') as o:
        o.write('#pragma once\n#include "props.h"\nnamespace calls {\n')
        for p in P:
            i, place, v, accessor, const = p[:5]
            if place >= 3:
                continue
            if accessor:
                o.write('inline Box<V%d> &g%d = *new Box<V%d>(Make<V%d>::make(%d));\n' % (v, i, v, v, i))
            else:
                make = 'Make<V%d>::make(%d)' % (v, i)
                o.write('inline V%d %s&g%d = *%s.release();\n' % (v, 'const ' if const else '', i, make))
            o.write(methods(p, True))
        for cls, base, place in (('PBase', '', MEMBER_OF_BASE), ('PHost', ' : PadA, PBase', MEMBER_OF_HOST)):
            mine = [p for p in P if p[1] == place]
            o.write('struct %s%s\n{\n' % (cls, base))
            if cls == 'PBase':
                o.write('    virtual ~PBase() {}\n')
            for p in mine:
                o.write('    %s\n' % field(p))
            inits = (['PBase(p + 1)'] if base else []) + [init(p) for p in mine]
            o.write('    explicit %s(int p = 0)%s {}\n' % (cls, ' : ' + ', '.join(inits) if inits else ''))
            for p in mine:
                o.write(methods(p, False))
            o.write('    DECLARE_CLASSINFO\n};\n')
        o.write('struct PDer : std::string, PHost\n{\n    explicit PDer(int p = 0) : PHost(p) {}\n    DECLARE_CLASSINFO\n};\n')
        for g in range(groups):
            o.write('void register_props%d();\n' % g)
        o.write('inline void register_props() { %s }\n} // namespace calls\n' % ' '.join('register_props%d();' % g for g in range(groups)))
    files = []
    for g in range(groups):
        path = '%s/props%d.cpp' % (outdir, g)
        files.append(path)
        with open(path, 'w') as o:
            o.write('#include "props_gen.h"\nnamespace calls {\nvoid register_props%d()\n{\n' % g)
            for p in P:
                i, place, v, accessor, const, gf, gc, sf, name = p
                if i % groups != g:
                    continue
                cls = {0: '', 1: 'PHost', 2: 'PBase', 3: 'PHost', 4: 'PBase'}[place]
                member = place >= 3
                how = {0: '_namespace("props")'}.get(place) or '_class<%s>("Props%s")' % (cls, cls)
                if accessor:
                    what = '&get%d, &set%d' % (i, i) if not member else '&%s::get%d, &%s::set%d' % (cls, i, cls, i)
                else:
                    what = '&g%d' % i if not member else '&%s::m%d' % (cls, i)
                o.write('    { auto g = rtti::global_define(); g.%s._property("%s", %s); }\n' % (how, name, what))
                val = '.p.get()' if accessor else ''
                amp = '' if accessor else '&'
                slot_b = '[](PBase const *h) -> void const * { return %sh->m%d%s; }' % (amp, i, val) if place == 4 else 'nullptr'
                slot_h = '[](PHost const *h) -> void const * { return %sh->m%d%s; }' % (amp, i, val) if member else 'nullptr'
                slot_s = '[]() -> void const * { return %sg%d%s; }' % (amp, i, val) if not member else 'nullptr'
                o.write('    props().push_back({%d, "%s", %d, %d, %s, %s, %d, %s, %d,\n        %s,\n        %s,\n        %s,\n        &read_slot<V%d>, &judge_get<V%d>});\n' % (
                    i, name, place, v, 'true' if accessor else 'false', 'true' if const else 'false', gf, 'true' if gc else 'false', sf if accessor else 0,
                    slot_b, slot_h, slot_s, v, v))
            o.write('}\n} // namespace calls\n')
    return files
