// Shows signatures and types the way spec/Sigs.tla writes them.
#pragma once
#include "hx.h"
#include "reflect.h"
#include <algorithm>

namespace sg {

using namespace reflect;
using hx::Strs;

inline std::string argStr(const Argument& a)
{
    return a.type()->id() + (a.refType() == RefType::Copy ? ".C" : a.refType() == RefType::LValue ? ".L" : ".R")
        + (a.isConst() ? ".c" : ".n");
}

inline std::string sigStr(const Function& f)
{
    std::string s = f.name() + ":" + argStr(f.returnType()) + "(";
    for (size_t i = 0; i < f.arguments(); ++i) s += (i ? "," : "") + argStr(f.argument(i));
    return s + ")";
}

// every overload of every function of the type itself
inline Strs ownSigs(const Type* t)
{
    Strs r;
    for (auto& n : t->functions()) {
        const Overloads* o = nullptr;
        try { o = &t->function(n); } catch (const Error&) { r.push_back("unlisted:" + n); continue; }
        for (size_t i = 0; i < o->size(); ++i) r.push_back(sigStr((*o)[i]));
    }
    return r;
}

} // namespace sg
