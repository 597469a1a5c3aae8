"""Generates random C++ types and the translation units that describe them."""
import os

FUND = ['bool', 'char', 'signed char', 'unsigned char', 'wchar_t', 'char16_t', 'char32_t', 'short',
        'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float',
        'double', 'long double', '__int128']
CLASSES = ['tg::Empty', 'tg::Pod', 'tg::Final', 'tg::Poly', 'tg::Derived', 'tg::VirtBase', 'tg::Diamond',
           'tg::NoCopy', 'tg::NoMove', 'tg::NoDefault', 'tg::NoAssign', 'tg::MoveOnly', 'tg::NoEq', 'tg::WithEq',
           'tg::NonTrivial', 'tg::Over', 'tg::Big', 'tg::ns1::Same', 'tg::ns2::Same', 'tg::Outer::Inner',
           'tg::Tmpl<int>', 'tg::Tmpl<unsigned>', 'tg::Tmpl<tg::Tmpl<int>>', "tg::Chr<']'>", "tg::Chr<'['>",
           "tg::Chr<'='>", "tg::Chr<';'>", 'tg::Two<int,char>', 'tg::Two<char,int>', 'tg::Num<1>', 'tg::Num<-1>',
           'tg::Num<11>', 'tg::Pack<>', 'tg::Pack<int>', 'tg::Pack<int,int>', 'tg::Pack<tg::Pack<int,int>>',
           'tg::Pack<tg::Pack<int>,int>', 'std::string', 'std::string_view', 'std::vector<int>',
           'std::map<int,std::string>', 'std::unique_ptr<int>', 'std::shared_ptr<int>', 'std::function<void(int)>',
           'std::pair<int,const int>', 'std::tuple<int&,char>', 'std::array<int,3>', 'rtti::variant', 'rtti::MetaType',
           'tg::Tag<const int>', 'tg::Tag<int>', 'tg::Tag<int&>', 'tg::Tag<int&&>', 'tg::Tag<int*>', 'tg::Tag<void>',
           'tg::Tag<void(int)>', 'tg::Tag<int[3]>', 'tg::Tag<int[4]>', 'tg::Tag<int(*)[4]>', 'tg::Wide<1>',
           'tg::TT<std::vector>', 'tg::TT<std::list>', 'std::chrono::nanoseconds', 'std::reference_wrapper<int>', 'tg::Huge']
LONG = ['tg::Long<%s,%d>' % (a, n) for n in (0, 1, 2, 4) for a in ('int,int,int', 'char,int,int', 'int,char,int', 'int,int,char')]
CLASSES += LONG
ABSTRACT = ['tg::Abstract']
OTHER = ['tg::E1', 'tg::E2', 'tg::E3', 'tg::U1', 'tg::U2', 'tg::Outer::E']
MEMPTR = ['int tg::Pod::*', 'const int tg::Pod::*', 'int tg::Poly::*', 'void (tg::Pod::*)()', 'void (tg::Pod::*)() const',
          'int (tg::Poly::*)(int, char) noexcept', 'void (tg::Pod::*)() &', 'void (tg::Pod::*)() &&',
          'int* tg::Pod::*', 'int (tg::Pod::*)[2]']
FUNC = ['void()', 'int(int)', 'int(const int&)', 'int(int&&)', 'void(int,...)', 'void() noexcept', 'tg::Pod(tg::Pod*)',
        'int*(char)', 'void(*(int))(char)']

PRELUDE = r'''
#include "typeinfo.h"
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <list>
#include <memory>
#include <functional>
#include <tuple>
#include <array>
#include <chrono>
#include <rtti/variant.h>
'''


def gen(rng, n, derive=True):
    """n distinct types; every later one is spelled through the alias of an earlier one."""
    base = FUND + CLASSES + OTHER + MEMPTR + ['void']
    types = []            # (expression, info)
    seen = set()

    def add(expr, **kw):
        d = dict(expr=expr, ref=False, ptr=0, arr=False, fn=False, void=False, abstract=False, cv='', big=0)
        d.update(kw)
        if expr in seen:
            return None
        seen.add(expr)
        types.append(d)
        return len(types) - 1

    for b in base:
        add('same_t<%s>' % b if '(' in b or '::*' in b else b, void=b == 'void', big=3 if b == 'tg::Huge' else 0)
    for b in ('int', 'int const', 'tg::Poly', 'void'):
        for k in (15, 16, 17, rng.randrange(18, 64)):
            add('tg::deep<%s,%d>' % (b, k), ptr=k)
    add('tg::deep<int *const,%d>' % rng.randrange(15, 62), ptr=63)
    for b in ABSTRACT:
        add(b, abstract=True)
    for f in FUNC:
        add('same_t<%s>*' % f, ptr=1)
    guard = 0
    while len(types) < n and guard < n * 50:
        guard += 1
        i = rng.randrange(len(types)) if rng.random() < .6 else rng.randrange(len(base))
        t = types[i]
        e = t['expr']
        if t['ref']:
            continue
        op = rng.choice(['ptr', 'ptr', 'ptr', 'const', 'const', 'volatile', 'cv', 'lref', 'lref', 'rref', 'arr', 'arr'])
        if op == 'ptr' and t['ptr'] < 5:
            add('add_ptr<%s>' % e, ptr=t['ptr'] + 1)
        elif op in ('const', 'volatile', 'cv') and not t['void'] and not t['cv']:
            q = {'const': 'const', 'volatile': 'volatile', 'cv': 'const volatile'}[op]
            # volatile class objects cannot be copied
            if op != 'const' and t['ptr'] == 0 and (e in CLASSES or t['arr'] or e in OTHER or t['abstract']):
                continue
            if op != 'const' and t['ptr'] == 0 and t.get('cls'):
                continue
            d = {k: t[k] for k in ('ptr', 'arr', 'abstract', 'big')}
            add('same_t<%s> %s' % (e, q), cv=op, **d)
        elif op in ('lref', 'rref') and not t['void']:
            d = {k: t[k] for k in ('ptr', 'arr', 'abstract')}   # of what it refers to
            d['ref'] = True
            add('same_t<%s>%s' % (e, '&' if op == 'lref' else '&&'), **d)
        elif op == 'arr' and not t['void'] and not t['abstract'] and t['big'] < 3:
            add('arr<%s,%d>' % (e, rng.choice([1, 2, 3, 7])), arr=True, big=t['big'] + 1, cv=t['cv'])
    return types


def write(work, types, tus):
    """Splits the types over translation units; each type is described by two of them."""
    files = []
    for k in range(tus):
        mine = [i for i in range(len(types)) if i % tus == k or (i // 3) % tus == k]
        p = os.path.join(work, 'types_%d.cpp' % k)
        with open(p, 'w') as f:
            f.write(PRELUDE)
            f.write('namespace {\nusing namespace tg;\n')
            for i in mine:
                f.write('using T%d = %s;\n' % (i, types[i]['expr']))
            f.write('} // namespace\n')
            f.write('void tg::describe_%d(std::vector<tg::Info> &out)\n{\n' % k)
            for i in mine:
                f.write('    out.push_back(tg::info<T%d>(%d, %d, "%s"));\n'
                        % (i, i, k, types[i]['expr'].replace('\\', '\\\\').replace('"', '\\"')))
            f.write('}\n')
        files.append(p)
    p = os.path.join(work, 'types_all.inc')
    with open(p, 'w') as f:
        for k in range(tus):
            f.write('DESCRIBE(%d)\n' % k)
    return files
