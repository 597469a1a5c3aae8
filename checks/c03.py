import itertools, os

LEVEL = 'exploration'
TECHNIQUE = 'every ordered pair of a generated family of qualified types asked of MetaType::compatible and judged by an independent structural model of C++ qualification and reference binding'
NOTE = ('Exhaustive over all const placements for up to three pointer levels, arrays of up to two dimensions, pointers to arrays, '
        'and all reference kinds (plus random deeper chains, and chains of 15 to 63 pointers), for several element types; the model was validated against '
        'std::is_convertible for the non-array part.')
RULE = 'an evaluation is one ordered pair of types with the same underlying type; distinct counts pairs of type spellings'
ASSUMPTIONS = ['types with the same shape over different element types are treated alike']
MIN_EVALS = 10000

BASES = ['int', 'tg::Pod', 'tg::E1', 'double', 'tg::Poly']


def shapes(rng, deep):
    """A shape is a list of levels from the outside in: ('P', const) / ('A', n) and finally ('B', const)."""
    out = []

    def chains(d):
        for bits in itertools.product((0, 1), repeat=d + 1):
            yield [('P', c) for c in bits[:-1]] + [('B', bits[-1])]
    for d in range(4):
        out += list(chains(d))
    for d in range(3):
        for c in chains(d):
            for n in (2, 3):
                out.append([('A', n)] + c)
    for d in range(2):
        for c in chains(d):
            for n in (2, 3):
                out.append([('A', n), ('A', 3)] + c)
            for k in (0, 1):
                out.append([('P', k), ('A', 3)] + c)
    for d in (15, 16, 17, 33, 63) if deep > 20 else (15, 16, 17, rng.choice((18, 31, 32, 33, 48, 63))):
        pats = [[0] * (d + 1), [1] * (d + 1), [0] * d + [1], [1] + [0] * d, [0] + [1] * d]
        k = rng.randrange(1, d)
        pats += [[1] * k + [0] * (d + 1 - k), [0] * k + [1] * (d + 1 - k), [rng.randrange(2) for _ in range(d + 1)]]
        q = list(pats[-1]); q[rng.randrange(d + 1)] ^= 1
        for bits in pats + [q]:
            out.append([('P', c) for c in bits[:-1]] + [('B', bits[-1])])
            if d < 63:
                out.append([('A', 2)] + [('P', c) for c in bits[:-1]] + [('B', bits[-1])])
    for _ in range(deep):
        d = rng.randrange(4, 7)
        out.append([('P', rng.randrange(2)) for _ in range(d)] + [('B', rng.randrange(2))])
        out.append([('A', rng.choice((1, 5)))] + [('P', rng.randrange(2)) for _ in range(rng.randrange(3, 5))] + [('B', rng.randrange(2))])
        out.append([('P', rng.randrange(2)), ('P', rng.randrange(2)), ('A', 2)] + [('P', rng.randrange(2)) for _ in range(rng.randrange(2))] + [('B', rng.randrange(2))])
    return out


def spell(shape, base):
    t = None
    for k, v in reversed(shape):
        if k == 'B':
            t = base + (' const' if v else '')
        elif k == 'P':
            t = 'tg::add_ptr<%s>' % t + (' const' if v else '')
        else:
            t = 'tg::arr<%s,%d>' % (t, v)
    return t


def code(shape):
    return ''.join({'B': 'b', 'P': 'p'}.get(k, 'a') + str(v) for k, v in shape)


def run(ctx):
    ss = shapes(ctx.rng, ctx.pick(8, 60))
    ents, seen = [], set()
    bases = BASES[:2] if not ctx.thorough else BASES
    for b, base in enumerate(bases):
        for s in ss:
            for ref in ('', '&', '&&'):
                e = spell(s, base)
                if (e, ref) in seen:
                    continue
                seen.add((e, ref))
                ents.append((b, code(s), ref, e))
    tus = 8
    files = []
    for k in range(tus):
        p = os.path.join(ctx.work, 'compat_%d.cpp' % k)
        with open(p, 'w') as f:
            f.write('#include "typeinfo.h"\n#include "compat.h"\nvoid compat_%d(std::vector<Ent> &v)\n{\n' % k)
            for i, (b, c, r, e) in enumerate(ents):
                if i % tus == k:
                    f.write('    { using T = %s; v.push_back(Ent{%d, "%s", %d, rtti::metaTypeId<T%s>()}); }\n'
                            % (e, b, c, len(r), r))
            f.write('}\n')
        files.append(p)
    exe = ctx.build(files + [ctx.src('compat.cpp')], opt='-O0')
    ctx.shards(exe, 8, [], timeout=300)
