"""Random type lists, callables, classes and types with what the tools of the library must say of them (C25).

A type is a nested tuple; name() is its canonical name (lib/tools.h spells the same names from the C++ side)."""

BASES = ['bool', 'char', 'unsigned char', 'int', 'unsigned', 'long', 'double', 'Open', 'En', 'Tag<0>', 'Tag<1>', 'Tag<2>']
B = lambda n: ('B', n)
VOID = B('void')


def K(t):
    if t[0] in 'AU':
        return t[:-1] + (K(t[-1]),)
    return t if t[0] in ('L', 'R', 'F', 'FN', 'K') else ('K', t)


def V(t):
    if t[0] in 'AU':
        return t[:-1] + (V(t[-1]),)
    if t[0] == 'K':
        return ('K', V(t[1]))
    return t if t[0] in ('L', 'R', 'F', 'FN', 'V') else ('V', t)


def name(t):
    k = t[0]
    if k == 'B':
        return t[1].replace('<', '').replace('>', '') if t[1].startswith('Tag') else t[1]
    if k == 'A':
        return 'A%d(%s)' % (t[1], name(t[2]))
    if k in 'KVPLRU':
        return '%s(%s)' % (k, name(t[1]))
    if k in ('F', 'FN'):
        return '%s(%s;%s)' % (k, name(t[1]), ','.join(map(name, t[2])))
    if k == 'list':
        return '[%s]' % ','.join(map(name, t[1]))
    if k == 'tuple':
        return '{%s}' % ','.join(map(name, t[1]))
    if k == 'Pack':
        return 'Pack<%s>' % ','.join(map(name, t[1]))
    if k == 'Pair':
        return '<%s|%s>' % (name(t[1]), name(t[2]))
    if k == 'M':
        return 'M(%s;%s)' % (name(t[1]), name(t[2]))
    if k == 'Nums':
        return 'Nums<%s>' % ''.join('%d;' % n for n in t[1])
    if k == 'TypeNum':
        return 'TypeNum<%s;%d>' % (name(t[1]), t[2])
    if k == 'NumType':
        return 'NumType<%d;%s>' % (t[1], name(t[2]))
    if k == 'function':
        return 'function<%s>' % name(t[1])
    if k == 'X':
        return t[1]
    raise ValueError(t)


def cpp(t):
    k = t[0]
    if k in 'BX':
        return t[1]
    if k == 'A':
        return 'A<%d, %s>' % (t[1], cpp(t[2]))
    if k in 'KVPLRU':
        return '%s<%s>' % (k, cpp(t[1]))
    if k == 'F':
        return 'Fn<%s>' % ', '.join([cpp(t[1])] + [cpp(a) for a in t[2]])
    if k == 'FN':
        return 'FnN<%s>' % ', '.join([cpp(t[1])] + [cpp(a) for a in t[2]])
    if k == 'list':
        return 'mpl::type_list<%s>' % ', '.join(map(cpp, t[1]))
    if k == 'tuple':
        return 'std::tuple<%s>' % ', '.join(map(cpp, t[1]))
    if k == 'Pack':
        return 'Pack<%s>' % ', '.join(map(cpp, t[1]))
    if k == 'Pair':
        return 'Pair<%s, %s>' % (cpp(t[1]), cpp(t[2]))
    if k == 'M':
        return 'P_M<%s, %s>' % (cpp(t[1]), cpp(t[2]))
    if k == 'Nums':
        return 'Nums<%s>' % ', '.join(map(str, t[1]))
    if k == 'TypeNum':
        return 'TypeNum<%s, %d>' % (cpp(t[1]), t[2])
    if k == 'NumType':
        return 'NumType<%d, %s>' % (t[1], cpp(t[2]))
    if k == 'function':
        return 'std::function<%s>' % cpp(t[1])
    raise ValueError(t)


def rand_type(rng, depth=3, obj=False):
    """Any type; an object type (no void, reference, function, unbounded array) when obj."""
    t = B(rng.choice(BASES))
    for _ in range(rng.randrange(depth + 1)):
        op = rng.choice('PPPKKVA' if obj else 'PPPKKVALRUF')
        if t[0] in ('L', 'R'):
            break
        if t[0] in ('F',):
            t = ('P', t) if op != 'L' else ('L', t)
        elif op == 'P':
            t = ('P', t)
        elif op == 'K':
            t = K(t)
        elif op == 'V':
            t = V(t)
        elif op == 'A' and t[0] != 'U':
            t = ('A', rng.choice([1, 2, 3, 5]), t)
        elif op in 'LR':
            t = (op, t)
        elif op == 'U' and t[0] not in 'UA':
            t = ('U', t)
        elif op == 'F' and t[0] not in 'UA':
            t = ('F', t, tuple(param(rng) for _ in range(rng.randrange(3))))
    if obj and t[0] == 'U':
        t = ('P', t[1])
    return t


def param(rng):
    """A parameter type as it stands in a signature: no top level cv."""
    t = B(rng.choice(BASES))
    for _ in range(rng.randrange(3)):
        op = rng.choice('PKLR')
        if t[0] in 'LR':
            break
        t = K(t) if op == 'K' else (op, t)
    while t[0] in 'KV':
        t = t[1]
    return t


# --- what the type transformations mean ---
def rm_cv(t):
    if t[0] in 'AU':
        return t[:-1] + (rm_cv(t[-1]),)
    while t[0] in 'KV':
        t = t[1]
    return t


def cv_of(t):
    if t[0] in 'AU':
        return cv_of(t[-1])
    c = ''
    while t[0] in 'KV':
        c += t[0]
        t = t[1]
    return c


def is_ptr(t):
    u = t
    while u[0] in 'KV':
        u = u[1]
    return u[0] == 'P'


def pointee(t):
    return rm_cv(t)[1]


def arity(t):
    if t[0] == 'A':
        return arity(t[2])
    return 1 + arity(pointee(t)) if is_ptr(t) else 0


def rm_pointers(t):
    while is_ptr(t):
        t = pointee(t)
    return rm_cv(t)


def length(t):
    return t[1] * length(t[2]) if t[0] == 'A' else 1


def rm_all_cv(t):
    if t[0] in 'LR':
        return (t[0], rm_all_cv(t[1]))
    if t[0] == 'A':
        return ('A', t[1], rm_all_cv(t[2]))
    if is_ptr(t):
        return ('P', rm_all_cv(pointee(t)))
    return rm_cv(t)


def decay(t):
    if t[0] in 'LR':
        t = t[1]
    if t[0] in 'AU':
        return ('P', t[-1])
    if t[0] in ('F', 'FN'):
        return ('P', t)
    return rm_cv(t)


def base_type(t):
    while True:
        if t[0] in 'LR':
            t = t[1]
        elif is_ptr(t):
            t = pointee(t)
        elif t[0] in 'AU':
            t = t[-1]
        else:
            return rm_cv(t)


def mentions(t, k):
    return t[0] == k or any(mentions(x, k) for x in t if isinstance(x, tuple) and x and isinstance(x[0], str)) or \
        any(mentions(y, k) for x in t if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x)


class File:
    def __init__(self, path, num):
        self.path, self.num, self.decl, self.facts = path, num, [], []

    def type(self, key, expr, want):
        self.facts.append((key, expr, 'nm<%s>()' % expr, name(want)))

    def val(self, key, expr, want):
        self.facts.append((key, expr, 'show(%s)' % expr, 'true' if want is True else 'false' if want is False else str(want)))

    def write(self):
        with open(self.path, 'w') as o:
            o.write('#include "tools.h"\nnamespace tl {\ntemplate<class C, class M> using P_M = M C::*;\n')
            o.write('\n'.join(self.decl) + '\n')
            parts = [self.facts[i:i + 60] for i in range(0, len(self.facts), 60)]
            for i, p in enumerate(parts):
                o.write('static void part%d(std::vector<Fact> &f)\n{\n' % i)
                for key, what, got, want in p:
                    o.write('    f.push_back({"%s", "%s", %s, "%s"});\n' % (key, what.replace('\\', '').replace('"', "'")[:700], got, want))
                o.write('}\n')
            o.write('void fill%d(std::vector<Fact> &f)\n{\n%s}\n}\n' % (self.num, ''.join('    part%d(f);\n' % i for i in range(len(parts)))))
        return self.path


# --- type lists ---
def lists(rng, f, n):
    for c in range(n):
        pool = [rand_type(rng) for _ in range(rng.choice([1, 2, 4, 8]))]
        pool += [K(pool[0]), ('P', pool[0])] if pool[0][0] not in 'LR' else [pool[0][1]]
        if rng.random() < .3:
            pool.append(('list', tuple(rng.choice(pool) for _ in range(rng.randrange(3)))))
        e = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20]))]
        ls = 'List%d_%d' % (f.num, c)
        f.decl.append('using %s = %s;' % (ls, cpp(('list', tuple(e)))))
        LT = lambda x: ('list', tuple(x))
        f.val('list size', 'mpl::typelist_size_v<%s>' % ls, len(e))
        f.val('list isempty', 'mpl::typelist_isempty_v<%s>' % ls, not e)
        f.val('list is_typelist', 'mpl::is_typelist_v<%s>' % ls, True)
        some = rng.choice(pool)
        f.val('list is_typelist', 'mpl::is_typelist_v<%s>' % cpp(some), some[0] == 'list')
        if e:
            f.type('list first', 'typename mpl::typelist_first<%s>::type' % ls, e[0])
            f.type('list last', 'typename mpl::typelist_last<%s>::type' % ls, e[-1])
            for i in {0, len(e) - 1, rng.randrange(len(e))}:
                f.type('list get', 'mpl::typelist_get_t<%s, %d>' % (ls, i), e[i])
            f.type('list popfront', 'typename mpl::typelist_popfront<%s>::type' % ls, LT(e[1:]))
            f.type('list popback', 'typename mpl::typelist_popback<%s>::type' % ls, LT(e[:-1]))
        for x in rng.sample(pool, min(3, len(pool))):
            f.val('list indexof', 'mpl::typelist_indexof_v<%s, %s>' % (ls, cpp(x)), e.index(x) if x in e else -1)
            f.val('list exists', 'mpl::typelist_exists_v<%s, %s>' % (ls, cpp(x)), x in e)
            i = e.index(x) if x in e else len(e)
            f.type('list remove', 'mpl::typelist_remove_t<%s, %s>' % (ls, cpp(x)), LT(e[:i] + e[i + 1:]))
            f.type('list removeall', 'mpl::typelist_removeall_t<%s, %s>' % (ls, cpp(x)), LT(y for y in e if y != x))
        f.type('list remove_duplicates', 'mpl::typelist_remove_duplicates_t<%s>' % ls,
               LT(x for i, x in enumerate(e) if x not in e[i + 1:]))
        more = [rng.choice(pool) for _ in range(rng.randrange(4))]
        f.type('list concat', 'typename mpl::typelist_concat<%s, %s>::type' % (ls, cpp(LT(more))), LT(e + more))
        args = ''.join(', ' + cpp(x) for x in more)
        f.type('list pushfront', 'typename mpl::typelist_pushfront<%s%s>::type' % (ls, args), LT(more + e))
        f.type('list pushback', 'typename mpl::typelist_pushback<%s%s>::type' % (ls, args), LT(e + more))
        other = list(e)
        rng.shuffle(other)
        how = rng.randrange(5)
        if how == 1 and other:
            other.pop()
        elif how == 2:
            other.append(rng.choice(pool))
        elif how == 3 and other:
            other[rng.randrange(len(other))] = rng.choice(pool)
        elif how == 4 and other:      # the same set, different counts
            other.append(rng.choice(other))
            if len(set(map(name, other))) < len(other) - 1:
                other.remove(rng.choice([x for x in other if other.count(x) > 1]))
        f.val('list unorderedequal', 'mpl::typelist_unorderedequal_v<%s, %s>' % (ls, cpp(LT(other))),
              sorted(map(name, e)) == sorted(map(name, other)))
        tup = lambda x: ('tuple', tuple(tup(y) for y in x[1])) if x[0] == 'list' else x
        f.type('list tuple', 'typename mpl::typelist_tuple<%s>::type' % ls, tup(LT(e)))
        plain = [x for x in e if x[0] not in 'LR']
        pl = cpp(LT(plain))
        f.type('list map', 'mpl::typelist_map_t<%s, AddP>' % pl, LT(('P', x) for x in plain))
        f.type('list map', 'mpl::typelist_map_t<%s, Wrap>' % ls, LT(('Pack', (x,)) for x in e))
        is_const = lambda x: is_const(x[-1]) if x[0] in 'AU' else x[0] == 'K'
        for fn, pred in rng.sample([('IsP', is_ptr), ('IsK', is_const), ('NotInt', lambda x: x != B('int')),
                                    ('All', lambda x: True), ('None', lambda x: False)], 3):
            f.type('list filter', 'typename mpl::typelist_filter<%s, %s>::type' % (ls, fn), LT(x for x in e if pred(x)))
        s = VOID
        for x in e:
            s = ('Pair', s, x)
        f.type('list foldl', 'typename mpl::typelist_foldl<%s, FoldPair, void>::type' % ls, s)
        s = VOID
        for x in reversed(e):
            s = ('Pair', x, s)
        f.type('list foldr', 'typename mpl::typelist_foldr<%s, FoldPair, void>::type' % ls, s)
        seq = ('X', 'I' + ''.join('%d;' % i for i in range(len(e))))
        f.type('list index sequence', 'mpl::index_sequence_for_t<%s>' % ls, seq)
        f.type('list index sequence', 'mpl::index_sequence_for_t<%s>' % cpp(('tuple', tuple(e))), seq)
        f.type('list index sequence', 'typename mpl::make_index_sequence<%d>::type' % len(e), seq)
        f.val('list index sequence', 'mpl::make_index_sequence<%d>::type::size::value' % len(e), len(e))
        seq1 = ('X', 'I' + ''.join('%d;' % i for i in range(len(more) + 1)))
        f.type('list index sequence', 'mpl::index_sequence_for_t<Open%s>' % args, seq1)


# --- callables ---
def callables(rng, f, n):
    for c in range(n):
        args = tuple(param(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 7])))
        res = rng.choice([VOID, VOID] + [param(rng) for _ in range(4)])
        const, vol = rng.random() < .4, rng.random() < .25
        ref = rng.choice(['', '', '', '&', '&&'])
        ne = rng.random() < .4
        kind = rng.choice(['fn', 'fnptr', 'fnref', 'member', 'member', 'member', 'functor', 'function', 'lambda'])
        quals = (' const' if const else '') + (' volatile' if vol else '') + (' ' + ref if ref else '') + (' noexcept' if ne else '')
        F = 'FN' if ne else 'F'
        cls, obj = VOID, None
        a = ', '.join(cpp(x) for x in args)
        id = '%d_%d' % (f.num, c)
        if kind in ('fn', 'fnptr', 'fnref', 'function'):
            const = vol = False
            ref = ''
            if kind == 'function':
                ne = False
                F = 'F'
                expr = cpp(('function', ('F', res, args)))
            else:
                expr = cpp((F, res, args)) + {'fn': '', 'fnptr': '*', 'fnref': '&'}[kind]
        elif kind == 'member':
            cls = B(rng.choice(['Open', 'Tag<1>', 'NoEq']))
            expr = 'Mem%s' % id
            f.decl.append('using %s = std::decay_t<%s (%s::*)(%s)%s>;' % (expr, cpp(res), cpp(cls), a, quals))
        elif kind == 'functor':
            cls = ('X', 'Functor%s' % id)
            expr = cls[1]
            f.decl.append('struct %s { %s operator()(%s)%s; };\nTL_BASE(%s)' % (expr, cpp(res), a, quals, expr))
        else:
            ref, vol = '', False
            mut = rng.random() < .3
            const = not mut
            expr = 'Lam%s' % id
            ret = 'void' if res == VOID else cpp(res)
            f.decl.append('inline auto lam%s() { return [](%s)%s%s -> %s { throw 1; }; }\nusing %s = decltype(lam%s());\nTL_BASE(%s)' % (
                id, a, ' mutable' if mut else '', ' noexcept' if ne else '', ret, expr, id, expr))
            cls = ('X', expr)
        # how the callable is named does not matter
        e = expr
        if kind in ('member', 'functor', 'lambda') and rng.random() < .4:
            e = rng.choice(['%s const', '%s &', '%s const &', '%s &&']) % expr
        ft = 'mpl::function_traits<%s>' % e
        f.type('callable class', 'typename %s::class_type' % ft, cls)
        for what, v in (('is_const', const), ('is_volatile', vol), ('is_lrefthis', ref == '&'), ('is_rrefthis', ref == '&&'), ('is_noexcept', ne)):
            f.val('callable ' + what, 'bool(%s::%s::value)' % (ft, what), v)
        f.type('callable result', 'typename %s::result_type' % ft, res)
        f.type('callable args', 'typename %s::args' % ft, ('list', args))
        f.val('callable arity', '%s::arity::value' % ft, len(args))
        if args:
            i = rng.randrange(len(args))
            f.type('callable arg', 'typename %s::template arg<%d>::type' % (ft, i), args[i])
        f.type('callable base_signature', 'typename %s::base_signature' % ft, (F, res, args))
        if cls == VOID:
            uni = args
        else:
            obj = cls
            if vol:
                obj = V(obj)
            if const:
                obj = K(obj)
            uni = (('R' if ref == '&&' else 'L', obj),) + args
        f.type('callable uniform_signature', 'typename %s::uniform_signature' % ft, (F, res, uni))
        f.type('callable function_type', 'mpl::function_type<%s>' % e, ('function', ('F', res, args)))
        if kind == 'lambda':
            f.val('lambda capture', 'mpl::lambda_has_capture<%s>::value' % expr, False)
            cap = 'Cap%s' % id
            f.decl.append('inline auto cap%s(int n) { return [%s](%s) { (void)n; }; }\nusing %s = decltype(cap%s(0));' % (
                id, rng.choice(['n', '&n', '=', '&']), a, cap, id))
            f.val('lambda capture', 'mpl::lambda_has_capture<%s>::value' % cap, True)


# --- detection of members ---
ARGS = [B('Tag<0>'), ('L', B('Tag<0>')), ('L', K(B('Tag<0>'))), ('R', B('Tag<0>')), B('Tag<1>'), ('P', B('Tag<2>'))]


def binds(p, a):
    """Does an argument std::declval<a>() bind to the parameter p (class types without conversions)?"""
    lv = a[0] == 'L'
    at = a[1] if a[0] in 'LR' else a
    const = at[0] == 'K'
    strip = rm_cv(at)
    pt = p[1] if p[0] in 'LR' else p
    if rm_cv(pt) != strip:
        return False
    if p[0] == 'L':
        return (lv or pt[0] == 'K') and (pt[0] == 'K' or not const)
    if p[0] == 'R':
        return not lv and (not const or pt[0] == 'K')
    return True


def members(rng, f, n):
    for c in range(n):
        id = 'Cls%d_%d' % (f.num, c)
        cls = ('X', id)
        over = {}
        body = []
        if rng.random() < .5:
            over['inner'] = True
            body.append(rng.choice(['using inner = int;', 'struct inner {};', 'enum inner { a };', 'typedef void *inner;']))
        elif rng.random() < .3:
            body.append(rng.choice(['int inner;', 'void inner();']))
        for m in 'fg':
            fs = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                sig = (tuple(rng.choice(ARGS) for _ in range(rng.choice([0, 1, 1, 2]))), rng.random() < .5, rng.choice(['', '', '&', '&&']))
                if any(s[1][0] == sig[0] for s in fs):
                    continue
                # a reference and a value of one type are ambiguous, keep one
                if any(len(s[1][0]) == len(sig[0]) for s in fs):
                    continue
                fs.append((rng.choice([VOID, B('int'), B('Tag<1>')]), sig, rng.random() < .3))
            over[m] = fs
            for res, (args, const, ref), ne in fs:
                body.append('%s %s(%s)%s %s%s;' % (cpp(res), m, ', '.join(map(cpp, args)), ' const' if const else '', ref, ' noexcept' if ne else ''))
        base = None
        if rng.random() < .25:
            f.decl.append('struct %sB { %s };\nstruct %s : %sB { };' % (id, ' '.join(body), id, id))
        else:
            f.decl.append('struct %s { %s };' % (id, ' '.join(body)))
        f.val('member type', 'has_type_inner<%s>::value' % id, 'inner' in over)
        for m in 'fg':
            fs = over[m]
            f.val('member function', 'has_method_%s<%s>::value' % (m, id), len(fs) == 1)
            for _ in range(3):
                if fs and rng.random() < .7:
                    res, (args, const, ref), ne = rng.choice(fs)
                    if rng.random() < .3:
                        res = rng.choice([VOID, B('int'), B('Tag<1>')])
                    if rng.random() < .3:
                        const = not const
                    if rng.random() < .3:
                        ref = rng.choice(['', '&', '&&'])
                    if rng.random() < .3 and args:
                        i = rng.randrange(len(args))
                        args = args[:i] + (rng.choice(ARGS),) + args[i + 1:]
                else:
                    res, args, const, ref, ne = rng.choice([VOID, B('int')]), tuple(rng.choice(ARGS) for _ in range(rng.randrange(3))), rng.random() < .5, '', False
                ne = rng.random() < .3
                # whether static_cast may add noexcept is the compiler's affair
                ne = ne and any(r == res and s == (args, const, ref) and o for r, s, o in fs)
                want = any(r == res and s == (args, const, ref) for r, s, o in fs)
                al = 'Sig%s_%d' % (id, len(f.decl))
                f.decl.append('using %s = std::decay_t<%s (%s::*)(%s)%s %s%s>;' % (
                    al, cpp(res), id, ', '.join(map(cpp, args)), ' const' if const else '', ref, ' noexcept' if ne else ''))
                f.val('member function', 'has_method_%s<%s>::value' % (m, al), want)
            for _ in range(4):
                objk = rng.choice(['', '&', 'const &', '&&', 'const', 'const &&'])
                pool = ARGS + [('R', K(B('Tag<0>')))]
                args = tuple(rng.choice(pool) for _ in range(rng.randrange(3)))
                if fs and rng.random() < .8:
                    args = tuple(x if rng.random() < .7 else rng.choice(pool) for x in rng.choice(fs)[1][0])
                res = rng.choice([VOID, B('int'), B('long'), B('Tag<1>')])
                ok = False
                for r, (ps, const, ref), ne in fs:
                    if len(ps) != len(args) or not all(binds(p, x) for p, x in zip(ps, args)):
                        continue
                    oc = 'const' in objk
                    lv = objk.endswith('&') and not objk.endswith('&&')
                    if oc and not const:
                        continue
                    if ref == '&' and not lv and not const:
                        continue
                    if ref == '&&' and lv:
                        continue
                    ok = res == VOID or r == res or (r == B('int') and res == B('long'))
                f.val('member call', 'can_call_method_%s<%s %s, %s>::value' % (m, id, objk, cpp(('F', res, args))), ok)


# --- transformations and traits of types ---
def traits(rng, f, n):
    for c in range(n):
        t = rand_type(rng, 6)
        if t[0] == 'F':
            t = ('P', t)
        x = cpp(t)
        unb = mentions(t, 'U')
        f.val('trait pointer_arity', 'rtti::pointer_arity_v<%s>' % x, arity(t))
        f.type('trait remove_all_pointers', 'rtti::remove_all_pointers_t<%s>' % x, rm_pointers(t))
        f.val('trait array_length', 'rtti::array_length_v<%s>' % x, length(t))
        f.type('trait base_type', 'rtti::base_type_t<%s>' % x, base_type(t))
        if not unb:
            f.type('trait remove_all_cv', 'rtti::remove_all_cv_t<%s>' % x, rm_all_cv(t))
            f.type('trait full_decay', 'rtti::full_decay_t<%s>' % x, rm_all_cv(decay(t)))
        if t[0] not in 'LR':
            k = rng.randrange(5)
            p = t
            for _ in range(k):
                p = ('P', p)
            f.type('trait add_pointers', 'rtti::add_pointers_t<%s, %d>' % (x, k), p)
        f.val('trait is_lvalue_const_reference', 'rtti::is_lvalue_const_reference_v<%s>' % x, t[0] == 'L' and 'K' in cv_of(t[1]))
        u = t[1] if t[0] in 'LR' else t
        f.val('trait is_class_ptr', 'rtti::is_class_ptr_v<%s>' % x, is_ptr(u) and (lambda b: b[0] == 'B' and (b[1].startswith('Tag') or b[1] == 'Open'))(rm_cv(pointee(u))))
        args = tuple(rand_type(rng) for _ in range(rng.randrange(4)))
        k = rng.randrange(6)
        if k == 0:
            w, want = ('Pack', args), args
        elif k == 1:
            nums = tuple(rng.randrange(-3, 9) for _ in range(rng.randrange(1, 4)))
            w, want = ('Nums', nums), tuple(B('int') for _ in nums)
        elif k == 2:
            a = rand_type(rng)
            w, want = ('TypeNum', a, 3), (a, B('int'))
        elif k == 3:
            a = rand_type(rng)
            w, want = ('NumType', -2, a), (B('int'), a)
        elif k == 4:
            w, want = ('tuple', args), args
        else:
            w, want = rng.choice([B('int'), B('Open'), ('P', ('Pack', args)), ('L', ('Pack', args))]), None
        f.val('trait is_template_type', 'rtti::is_template_type_t<%s>::value' % cpp(w), want is not None)
        f.type('trait template_type_args', 'rtti::template_type_args_t<%s>' % cpp(w), ('list', want or ()))
    eq = {'NoEq': (0, 0), 'WithEq': (1, 0), 'QuietEq': (1, 1), 'int': (1, 1), 'En': (1, 1), 'MutEq': (1, 0), 'double': (1, 1)}
    for a in eq:
        for cv in ('', ' const', ' &', ' const &'):
            ok = eq[a][0] and not (a == 'MutEq' and 'const' in cv)
            f.val('trait has_eq', 'rtti::has_eq_v<%s%s, %s%s>' % (a, cv, a, cv), bool(ok))
            f.val('trait has_nt_eq', 'rtti::has_nt_eq_v<%s%s, %s%s>' % (a, cv, a, cv), bool(ok and eq[a][1]))
        f.val('trait has_eq', 'rtti::has_eq_v<%s, Open>' % a, False)
        f.val('trait size_of', 'rtti::size_of_v<%s> == sizeof(%s)' % (a, a), True)
    f.val('trait size_of', 'rtti::size_of_v<void>', 0)


def generate(rng, where, rounds, size):
    files, num = [], 0
    for _ in range(rounds):
        for gen, n in ((lists, size), (callables, size * 2), (members, size), (traits, size * 3)):
            f = File('%s/tools%d.cpp' % (where, num), num)
            gen(rng, f, n)
            files.append(f.write())
            num += 1
    with open(where + '/tools_list.h', 'w') as o:
        o.write('namespace tl {\n' + ''.join('void fill%d(std::vector<Fact> &);\n' % i for i in range(num)))
        o.write('static Filler const fillers[] = {%s};\n}\n' % ', '.join('fill%d' % i for i in range(num)))
    return files
