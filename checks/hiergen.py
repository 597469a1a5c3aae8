"""Generates random class hierarchies with class info and the tables that describe them."""
import os


class Cls:
    pass


def subobjects(cls, i):
    """Keys of the subobjects of a complete object of class i: paths, restarted at virtual edges."""
    out, order = {}, []

    def go(key, k, path):
        if key in out:
            return
        out[key] = (k, path)
        order.append(key)
        for b, virt in cls[k].bases:
            nk = (('v', b),) if virt else key + (b,)
            go(nk, b, path + (b,))
    go((i,), i, (i,))
    return [(k, out[k][0], out[k][1]) for k in order]


def gen_hierarchy(rng, h, n):
    """One namespace of n classes."""
    while True:
        cls = []
        for i in range(n):
            c = Cls()
            c.i = i
            c.bases = []
            if i:
                want = rng.choice([0, 1, 1, 1, 2, 2, 3])
                cand = list(range(i))
                rng.shuffle(cand)
                style = rng.choice([0.15, 0.5, 0.9])
                for b in cand[:want]:
                    c.bases.append((b, rng.random() < style))
            cls.append(c)
            # every direct base must be an unambiguous base; otherwise drop edges
            while True:
                subs = subobjects(cls, i)
                cnt = {}
                for _, k, _ in subs:
                    cnt[k] = cnt.get(k, 0) + 1
                bad = [b for b, _ in c.bases if cnt[b] > 1]
                if not bad:
                    break
                c.bases = [x for x in c.bases if x[0] != bad[0]]
        if sum(1 for c in cls if c.bases) >= n // 2:
            break
    for c in cls:
        i = c.i
        c.plain = False
        if not c.bases and rng.random() < .15:
            c.own_ci = False
            c.plain = rng.random() < .6      # no virtual functions at all
        elif len(c.bases) <= 1 and rng.random() < .12 and c.bases:
            c.own_ci = False
        else:
            c.own_ci = True
        # a class with bases must keep classInfo() unambiguous
        c.abstract = c.own_ci and rng.random() < .1
        c.pad = rng.choice([0, 0, 1, 8, 24, 33])
        c.align = 0    # (as-base alignment of classes with virtual bases confuses UBSan)
        c.registered = rng.random() < .88
        c.lazy = rng.random() < .15
        c.hidden_pure = c.abstract
    for c in cls:
        def ci_of(k):
            if cls[k].own_ci:
                return k, (k,)
            if cls[k].plain or not cls[k].bases:
                return None
            r = ci_of(cls[k].bases[0][0])
            return r and (r[0], (k,) + r[1])
        c.ci = ci_of(c.i)
        c.declared = []
        if c.registered:
            for b, _ in c.bases:
                if cls[b].registered and rng.random() < .92:
                    c.declared.append(b)
            rng.shuffle(c.declared)
    return cls


def path_expr(cls, ns, path, var):
    e = 'static_cast<%s::C%d *>(%s)' % (ns, path[0], var)
    for p in path[1:]:
        e = 'static_cast<%s::C%d *>(%s)' % (ns, p, e)
    return e


def write_hierarchy(d, h, cls, base_index, outsiders):
    ns = 'h%d' % h
    o = ['#include "hier.h"', 'namespace %s {' % ns]
    pure = {}
    for c in cls:
        bases = ''
        if c.bases:
            bases = ' : ' + ', '.join(('virtual ' if v else '') + 'C%d' % b for b, v in c.bases)
        o.append('struct C%d%s\n{' % (c.i, bases))
        if c.own_ci:
            o.append('    DECLARE_CLASSINFO\npublic:')
        inh = set()
        for b, _ in c.bases:
            inh |= pure[b]
        for k in sorted(inh):
            o.append('    void pure_%d() override {}' % k)
        if c.abstract:
            o.append('    virtual void pure_%d() = 0;' % c.i)
            inh = inh | {c.i}
        pure[c.i] = inh
        if not c.plain:
            o.append('    virtual ~C%d() = default;' % c.i)
        o.append('    C%d() = default; C%d(C%d const &) = default;' % (c.i, c.i, c.i))
        if c.pad:
            o.append('    %schar pad_%d[%d] = {};' % ('alignas(16) ' if c.align else '', c.i, c.pad))
        o.append('    long mark = %d;\n};' % (1000 * h + 1000 + c.i))
    o.append('} // namespace %s' % ns)
    for hh, other in outsiders:
        o.append('namespace x%d { struct Out { DECLARE_CLASSINFO public: virtual ~Out() = default; long mark = 5; }; }' % h)
        break
    o.append('static void define()\n{')
    reg = [c for c in cls if c.registered]
    o.append('    { auto g = rtti::global_define(); g._namespace("%s")._class<x%d::Out>("Out"); }' % (ns, h))
    for c in reg:
        o.append('    {\n        auto g = rtti::global_define(); auto c = g._namespace("%s")._class<%s::C%d>("C%d");' % (ns, ns, c.i, c.i))
        if c.declared:
            stm = []
            rest = list(c.declared)
            while rest:
                k = min(len(rest), 1 + (c.i + len(rest)) % 3)
                stm.append('_base<%s>();' % ', '.join('%s::C%d' % (ns, b) for b in rest[:k]))
                rest = rest[k:]
            if c.lazy:
                o.append('        c._lazy([](rtti::meta_define<%s::C%d> d) { %s });' % (ns, c.i, ' '.join('d.' + s for s in stm)))
            else:
                o += ['        c.' + s for s in stm]
        o.append('    }')
    o.append('}')
    # one table function per class, to keep functions small
    for c in cls:
        o.append('static void row_%d()\n{\n    using T = %s::C%d;\n    hier::Class c{};' % (c.i, ns, c.i))
        o.append('    c.name = "%s::C%d"; c.hier = %d; c.registered = %d; c.own_ci = %d; c.plain = %d;'
                 % (ns, c.i, h, c.registered, c.own_ci, c.plain))
        subs = subobjects(cls, c.i)
        ci, cisub = -1, -1
        inci = set()
        if c.ci:
            ci = c.ci[0]
            # the chain of single bases down to the one that has classInfo
            path = c.ci[1]
            for n, (key, k, p) in enumerate(subs):
                if p == path:
                    cisub = n
        if cisub >= 0:
            inner = subobjects(cls, ci)
            ck = subs[cisub][0]
            for key, k, p in inner:
                # key of the same subobject seen from c
                if key[0] == ci:
                    inci.add(ck + key[1:])
                else:
                    inci.add(key)
        o.append('    c.ci = %d; c.ci_sub = %d;' % (base_index + ci if ci >= 0 else -1, cisub))
        o.append('    c.declared = {%s};' % ', '.join(str(base_index + b) for b in c.declared))
        o.append('    hier::fill<T>(c);')
        for key, k, p in subs:
            o.append('    c.subs.push_back({%d, [](void *p) -> void * { return %s; }, %s});'
                     % (base_index + k, path_expr(cls, ns, p, 'p'), 'true' if key in inci else 'false'))
        for t in cls:
            o.append('    c.casts.push_back({%d, hier::meta_cast_row<%s::C%d, T>()});' % (base_index + t.i, ns, t.i))
        o.append('    c.casts.push_back({-1, hier::meta_cast_row<x%d::Out, T>()});' % h)
        o.append('    hier::classes().push_back(c);\n}')
    o.append('void hierarchy_%d()\n{\n    define();' % h)
    for c in cls:
        o.append('    row_%d();' % c.i)
    o.append('}')
    p = os.path.join(d, 'hier_%d.cpp' % h)
    with open(p, 'w') as f:
        f.write('\n'.join(o) + '\n')
    return p


def generate(rng, d, count, size):
    files, base = [], 0
    hs = []
    for h in range(count):
        cls = gen_hierarchy(rng, h, rng.randrange(4, size + 1))
        hs.append(cls)
        files.append(write_hierarchy(d, h, cls, base, [(0, None)]))
        base += len(cls)
    with open(os.path.join(d, 'hier_all.inc'), 'w') as f:
        for h in range(count):
            f.write('HIER(%d)\n' % h)
    return files
