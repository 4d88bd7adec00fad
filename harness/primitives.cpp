// Primitives harness: the built-in types through the library (spec/Primitives.tla).
#include "sigs.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/reflect/value.h"
#include <cmath>
#include <cstdint>
#include <limits>

using namespace reflect;
using hx::Strs; using hx::Cmd; using hx::S;

#define TYPES(F) F(bool) F(char) F(signed char) F(unsigned char) F(short int) F(unsigned short int) F(int) \
    F(unsigned int) F(long int) F(unsigned long int) F(long long int) F(unsigned long long int) F(float) F(double) \
    F(long double)
#define NAMES(F) F(short) F(unsigned short) F(long) F(unsigned long) F(long long) F(unsigned long long) F(size_t) \
    F(ssize_t) F(intmax_t) F(uintmax_t) F(intptr_t) F(uintptr_t) F(int8_t) F(uint8_t) F(int16_t) F(uint16_t) \
    F(int32_t) F(uint32_t) F(int64_t) F(uint64_t) F(int_fast8_t) F(uint_fast8_t) F(int_fast16_t) F(uint_fast16_t) \
    F(int_fast32_t) F(uint_fast32_t) F(int_fast64_t) F(uint_fast64_t) F(int_least8_t) F(uint_least8_t) \
    F(int_least16_t) F(uint_least16_t) F(int_least32_t) F(uint_least32_t) F(int_least64_t) F(uint_least64_t)

static std::map<std::string, Value> V;

// Integers are their bytes, floating point numbers are written m * 2^e with m in binary.
template<typename T> std::string showF(T x)
{
    if (std::isnan(x)) return "nan";
    if (std::isinf(x)) return x < 0 ? "-inf" : "inf";
    if (x == 0) return std::signbit(x) ? "-0" : "0";
    int e;
    T m = std::frexp(std::fabs(x), &e);
    std::string bits;
    while (m != 0) { m *= 2; --e; bits += m >= 1 ? '1' : '0'; if (m >= 1) m -= 1; }
    return (x < 0 ? "-" : "") + bits.substr(bits.find('1')) + "e" + S(e);
}
template<typename T> std::string show(const T& x, std::false_type)
{
    std::string r;
    for (size_t i = 0; i < sizeof(T); ++i) r += (i ? "." : "") + S(((const unsigned char*) &x)[i]);
    return r;
}
template<typename T> std::string show(const T& x, std::true_type) { return showF(x); }
template<typename T> std::string show(const T& x) { return show(x, std::is_floating_point<T>()); }

template<typename T> T make(const std::vector<long>& n, std::false_type)
{
    T x = 0;
    if (n.size() != sizeof(T)) abort();
    for (size_t i = 0; i < sizeof(T); ++i) ((unsigned char*) &x)[i] = n[i];
    return x;
}
template<typename T> T make(const std::vector<long>& n, std::true_type)
{
    typedef std::numeric_limits<T> L;
    switch (n[0]) {
    case 0: return std::ldexp(T(n[1]), n[2]);
    case 1: return L::infinity();
    case 2: return -L::infinity();
    case 3: return L::quiet_NaN();
    case 4: return -T(0);
    case 5: return L::max();
    default: return L::lowest();
    }
}
template<typename T> T make(const std::vector<long>& n) { return make<T>(n, std::is_floating_point<T>()); }
template<typename T> T& global() { static T x = T(); return x; }

std::string content(const Value& v)
{
#define CONTENT(T) if (v.typeId() == #T) return show(*static_cast<T*>(v.value()));
    TYPES(CONTENT)
    return "?" + v.typeId();
}
std::string desc(const Value& v)
{
    if (v.isVoid()) return "void";
    return sg::argStr(v.argument()) + (v.isStored() ? "|s|" : "|-|") + content(v);
}
Strs keep(const std::string& r, Value v) { V[r] = v; return Strs(1, desc(V[r])); }
Strs ok() { return Strs(1, "ok"); }

// The commands about a type that is written in the program.
template<typename T> Strs typed(const Cmd& c, const std::string& op)
{
    const Strs& a = c.a;
    if (op == "mk") return keep(a[0], Value(make<T>(c.n)));
    if (op == "poke") { global<T>() = make<T>(c.n); return ok(); }
    if (op == "peek") return Strs(1, show(global<T>()));
    if (op == "ref") return keep(a[0], Value(global<T>()));
    if (op == "cref") { const T& x = global<T>(); return keep(a[0], Value(x)); }
    if (op == "consT") { const T x = make<T>(c.n); return keep(a[0], type(a[1])->construct(x)); }
    if (op == "assignT") { const T x = make<T>(c.n); V[a[0]].assign(x); return ok(); }
    if (op == "plusT") { const T x = make<T>(c.n); return keep(a[0], V[a[1]] + x); }
    if (op == "get") return Strs(1, show(V[a[0]].get<T>()));
    if (op == "cast") return Strs(1, show(cast<T>(V[a[0]])));
    if (op == "castR") return Strs(1, show(cast<T&>(V[a[0]])));
    if (op == "castC") return Strs(1, show(cast<const T&>(V[a[0]])));
    if (op == "write") { cast<T&>(V[a[0]]) = make<T>(c.n); return ok(); }
    if (op == "limits") {
        const Type* t = type(a[0]);
        return Strs{ S(long(t->getValue<size_t>("sizeof"))), show(t->getValue<T>("min")), show(t->getValue<T>("max")) };
    }
    if (op == "limit") return Strs(1, show(type(a[0])->getValue<T>(a[1])));
    abort();
}
template<typename T> std::string nameOf(const std::string& n)
{
    const Type* t = type(n);
    std::string r = t->id();
    if (type<T>() != t) r += "|type:" + type<T>()->id();
    if (type<const T>() != t) r += "|const type:" + type<const T>()->id();
    if (!scope()->hasType(t->id())) r += "|not in scope";
    else if (scope()->type(t->id()) != t) r += "|scope:" + scope()->type(t->id())->id();
    if (type(t->id()) != t) r += "|other";
    return r + "|same|" + typeId<T>();
}

Strs run_(const Cmd& c)
{
    const Strs& a = c.a;
    const std::string& op = c.op;
    static const std::map<std::string, int> typeArg = {     // which argument names the C++ type
        {"mk", 1}, {"poke", 0}, {"peek", 0}, {"ref", 1}, {"cref", 1}, {"consT", 2}, {"assignT", 1}, {"plusT", 2},
        {"get", 1}, {"cast", 1}, {"castR", 1}, {"castC", 1}, {"write", 1}, {"limit", 2} };
    auto ta = typeArg.find(op);
    if (ta != typeArg.end()) {
#define TYPED(T) if (a[ta->second] == #T) return typed<T>(c, op);
        TYPES(TYPED)
        abort();
    }
    if (op == "limits") {
        std::string id = type(a[0])->id();
#define LIMITS(T) if (id == #T) return typed<T>(c, op);
        TYPES(LIMITS)
        return Strs(1, "err");
    }
    if (op == "set") return keep(a[0], V[a[1]]);
    if (op == "rval") return keep(a[0], V[a[1]].rvalue());
    if (op == "const") return keep(a[0], V[a[1]].toConst());
    if (op == "copy") return keep(a[0], V[a[1]].copy());
    if (op == "move") return keep(a[0], V[a[1]].move());
    if (op == "def") return keep(a[0], type(a[1])->construct());
    if (op == "cons") return keep(a[0], type(a[1])->construct(V[a[2]]));
    if (op == "alloc") {
        Value p = type(a[1])->alloc();
        Value x = *p;
#define FILL(T) if (x.typeId() == #T) x.assign(make<T>(c.n));
        TYPES(FILL)
        return keep(a[0], x);
    }
    if (op == "assign") { V[a[0]].assign(V[a[1]]); return ok(); }
    if (op == "plus") return keep(a[0], V[a[1]] + V[a[2]]);
    if (op == "show") return Strs(1, desc(V[a[0]]));
    if (op == "info") {
        const Type* t = type(a[0]);
        Strs r = { "id=" + t->id(), "parent=" + (t->parent() ? t->parent()->id() : std::string("none")),
            "fields=" + S(long(t->fields().size())), std::string("pointer=") + (t->isPointer() ? "y" : "n"),
            std::string("copiable=") + (t->isCopiable() ? "y" : "n"),
            std::string("movable=") + (t->isMovable() ? "y" : "n") };
        for (auto& x : t->traits()) r.push_back(x);
        for (auto& x : sg::ownSigs(t)) r.push_back(x);
        return r;
    }
    if (op == "is") return Strs(1, type(a[0])->is(a[1]) ? "1" : "0");
    if (op == "names") {
        Strs r;
        for (auto& n : a) {
            std::string x = "err";
            try {
#define NAMED(T) if (n == #T) x = nameOf<T>(n);
                TYPES(NAMED) NAMES(NAMED) NAMED(void)
                if (x == "err") x = type(n)->id() + "|found";
            }
            catch (const reflect::Error&) {}
            r.push_back(x);
        }
        return r;
    }
    if (op == "ptr") {
#define PTR(T) if (a[0] == #T) return Strs{ type<T*>()->id(), type<T*>()->pointee()->id() };
        TYPES(PTR) NAMES(PTR)
        abort();
    }
    abort();
}
Strs run(const Cmd& c)
{
    try { return run_(c); } catch (const reflect::Error&) { return Strs(1, "err"); }
}
int main(int argc, char** argv)
{
    return hx::main(argc, argv, run);
}
