// What the generated classes of the declaration macros are made of (lib/declgen.py, spec/Decl.tla).
#pragma once
#include "sigs.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/reflect/value.h"
#include <cstddef>

// Every generated class holds one number and how it was last made or assigned.
struct Cell
{
    Cell() : n(0), how("") { ++live; }
    Cell(const Cell& o) : n(o.n), how(o.how) { ++live; }
    ~Cell() { --live; }
    int n;
    const char* how;
    static int live;
};

inline int calc(int tag, int n, int a, int b) { return (tag + 7 * n + 3 * a + 5 * b) % 1009; }
inline int num(int x) { return x; }
inline int num(const Cell& c) { return c.n; }
inline int& ref(int& x) { return x; }
inline int& ref(Cell& c) { return c.n; }

struct Call
{
    const reflect::Value& v; std::string fn; reflect::Value r;
    template<typename... A> void operator()(A&&... a) { r = v.call<reflect::Value>(fn, std::forward<A>(a)...); }
};
#define BINARY(F) F(+=) F(-=) F(*=) F(/=) F(%=) F(&=) F(|=) F(^=) F(<<=) F(>>=) F(+) F(-) F(*) F(/) F(%) F(&) F(|) F(^) \
    F(<<) F(>>)
#define TRUTH(F) F(&&) F(||) F(==) F(!=) F(<) F(>) F(<=) F(>=)
struct Binary
{
    const reflect::Value& v; std::string op; reflect::Value r;
    template<typename A> void operator()(A&& a)
    {
#define BIN(o) if (op == "operator" #o) { r = v o std::forward<A>(a); return; }
        BINARY(BIN)
        if (op == "operator[]") { r = v[std::forward<A>(a)]; return; }
        abort();
    }
    void operator()() { abort(); }
    template<typename A, typename B, typename... C> void operator()(A&&, B&&, C&&...) { abort(); }
};
struct Bool
{
    const reflect::Value& v; std::string op; bool r;
    template<typename A> void operator()(A&& a)
    {
#define BOOL(o) if (op == "operator" #o) { r = v o std::forward<A>(a); return; }
        TRUTH(BOOL)
        r = v.call<bool>(op, std::forward<A>(a));
    }
    void operator()() { r = v.call<bool>(op); }
    template<typename A, typename B, typename... C> void operator()(A&& a, B&& b, C&&... c)
    {
        r = v.call<bool>(op, std::forward<A>(a), std::forward<B>(b), std::forward<C>(c)...);
    }
};
struct Assign
{
    const reflect::Value& v;
    template<typename A> void operator()(A&& a) { v.assign(std::forward<A>(a)); }
    void operator()() { abort(); }
    template<typename A, typename B, typename... C> void operator()(A&&, B&&, C&&...) { abort(); }
};

struct ClassInfo
{
    std::string name;
    size_t size;
    std::function<reflect::Value(int, bool)> global;        // a value that refers to global object i
    std::function<Cell*(int)> cell;
    std::function<int(Cell*)> zero;     // what only the zeroes of T() initialise if its constructor is the compiler's
    std::function<const reflect::Type*()> type;
    // with an object of the class as the argument: T& or const T&
    std::function<void(Call&, void*, bool)> call;
    std::function<void(Binary&, void*, bool)> binary;
    std::function<void(Bool&, void*, bool)> truth;
    std::function<void(Assign&, void*, bool)> assign;
};
bool classes(std::vector<ClassInfo> l);
bool variable(const std::string& name, const std::string& type, void* at, std::function<reflect::Value()> ref);

template<typename T> T& globalOf(int i)
{
    static T* g[2] = { new T(3), new T(8) };
    return *g[i];
}
template<typename T, typename F> void typedArg(F& f, void* x, bool c)
{
    if (c) f(*static_cast<const T*>(x)); else f(*static_cast<T*>(x));
}
template<typename T> void typedArgs(ClassInfo& r, std::true_type)
{
    r.call = typedArg<T, Call>;
    r.binary = typedArg<T, Binary>;
    r.truth = typedArg<T, Bool>;
    r.assign = typedArg<T, Assign>;
}
template<typename T> void typedArgs(ClassInfo&, std::false_type) {}
template<typename T, bool typed> ClassInfo info(const char* name)
{
    ClassInfo r;
    r.name = name;
    r.size = sizeof(T);
    r.global = [] (int i, bool c) -> reflect::Value {
        T& x = globalOf<T>(i);
        const T& y = x;
        return c ? reflect::Value(y) : reflect::Value(x);
    };
    r.cell = [] (int i) -> Cell* { return &globalOf<T>(i); };
    r.zero = [] (Cell* x) { return static_cast<T*>(x)->z; };
    r.type = [] () -> const reflect::Type* { return reflect::type<T>(); };
    typedArgs<T>(r, std::integral_constant<bool, typed>());
    return r;
}
