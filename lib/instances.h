// Every way to hand over the instance a method or property works on.
#pragma once
#include "calls_expect.h"

namespace calls {
enum InstForm { I_VAL, I_CVAL, I_REF, I_CVREF, I_CREF, I_PTR, I_CPTR, I_CVPTR, I_DVAL, I_DREF, I_DPTR, I_CDVAL, I_DCPTR,
                I_CVCPTR, I_CVCREF, I_CVDPTR, I_CVDCPTR, I_CDREF, I_CVDREF, I_RVAL, I_RAW, I_CRAW,
                I_BASE, I_BASEPTR, I_OTHER, I_OTHERPTR, I_INT, I_EMPTY, I_NULL, I_CNULL, I_DNULL, I_CVNULL, INSTS };
inline char const *const inst_names[] = {"value", "const variant of value", "reference", "const variant of reference", "const reference", "pointer",
                                  "pointer to const", "const variant of pointer", "value of derived", "reference to derived", "pointer to derived",
                                  "const variant of derived", "pointer to const derived", "const variant of pointer to const",
                                  "const variant of const reference", "const variant of pointer to derived", "const variant of pointer to const derived",
                                  "const reference to derived", "const variant of reference to derived", "rvalue variant", "object itself", "const object itself",
                                  "base class only", "pointer to base class only", "another class", "pointer to another class", "not a class", "empty variant", "null pointer",
                                  "null pointer to const", "null pointer to derived", "const variant of null pointer"};
template<typename HB, typename H, typename HD> struct Instance
{
    int form;
    std::unique_ptr<H> host;
    std::unique_ptr<HD> hostd;
    HB base;
    Other other;
    variant v;
    bool is_const_variant = false;
    unsigned allow_const = E, allow_mut = E;   // outcome of a const / non-const method: E error, ID on that object, CP on a copy
    H const *object = nullptr;
    explicit Instance(int f, int payload) : form(f), host(std::make_unique<H>(payload)), hostd(std::make_unique<HD>(payload))
    {
        object = host.get();
        allow_const = ID;
        switch (f)
        {
        case I_VAL: v = variant{H(payload)}; allow_mut = ID; break;
        case I_CVAL: v = variant{H(payload)}; is_const_variant = true; break;
        case I_REF: v = variant{std::ref(*host)}; allow_mut = ID; break;
        case I_CVREF: v = variant{std::ref(*host)}; is_const_variant = true; break;
        case I_CREF: v = variant{std::cref(*host)}; break;
        case I_PTR: v = variant{host.get()}; allow_mut = ID; break;
        case I_CPTR: v = variant{static_cast<H const *>(host.get())}; break;
        case I_CVPTR: v = variant{host.get()}; is_const_variant = true; allow_mut = ID; break;
        case I_DVAL: v = variant{HD(payload)}; allow_mut = ID; break;
        case I_CDVAL: v = variant{HD(payload)}; is_const_variant = true; break;
        case I_DREF: v = variant{std::ref(*hostd)}; allow_mut = ID; break;
        case I_DPTR: v = variant{hostd.get()}; allow_mut = ID; break;
        case I_DCPTR: v = variant{static_cast<HD const *>(hostd.get())}; break;
        case I_CVCPTR: v = variant{static_cast<H const *>(host.get())}; is_const_variant = true; break;
        case I_CVCREF: v = variant{std::cref(*host)}; is_const_variant = true; break;
        case I_CVDPTR: v = variant{hostd.get()}; is_const_variant = true; allow_mut = ID; break;
        case I_CVDCPTR: v = variant{static_cast<HD const *>(hostd.get())}; is_const_variant = true; break;
        case I_CDREF: v = variant{std::cref(*hostd)}; break;
        case I_CVDREF: v = variant{std::ref(*hostd)}; is_const_variant = true; break;
        case I_RVAL: v = variant{H(payload)}; allow_mut = E | ID; break;
        case I_RAW: allow_mut = ID; break;
        case I_CRAW: break;
        case I_BASE: v = variant{std::ref(base)}; allow_const = E; object = nullptr; break;
        case I_BASEPTR: v = variant{&base}; allow_const = E; object = nullptr; break;
        case I_OTHER: v = variant{other}; allow_const = E; object = nullptr; break;
        case I_OTHERPTR: v = variant{&other}; allow_const = E; object = nullptr; break;
        case I_INT: v = variant{5}; allow_const = E; object = nullptr; break;
        case I_EMPTY: allow_const = E; object = nullptr; break;
        case I_NULL: v = variant{static_cast<H *>(nullptr)}; allow_const = E; object = nullptr; break;
        case I_CNULL: v = variant{static_cast<H const *>(nullptr)}; allow_const = E; object = nullptr; break;
        case I_DNULL: v = variant{static_cast<HD *>(nullptr)}; allow_const = E; object = nullptr; break;
        case I_CVNULL: v = variant{static_cast<H *>(nullptr)}; is_const_variant = true; allow_const = E; object = nullptr; break;
        }
        if (f == I_VAL || f == I_CVAL || f == I_RVAL) object = std::as_const(v).template data<H>();
        if (f == I_DVAL || f == I_CDVAL) object = std::as_const(v).template data<HD>();
        if (f == I_DREF || f == I_DPTR || f == I_DCPTR || f == I_CVDPTR || f == I_CVDCPTR || f == I_CDREF || f == I_CVDREF) object = hostd.get();
    }
    /// only the base class of what has the methods and properties
    static bool is_base(int f) { return f == I_BASE || f == I_BASEPTR; }
    static bool is_null(int f) { return f == I_NULL || f == I_CNULL || f == I_DNULL || f == I_CVNULL; }
    static bool is_pointer(int f) { return f == I_PTR || f == I_CVPTR || f == I_DPTR || f == I_CVDPTR || f == I_BASEPTR; }
};

} // namespace calls
