// Pool of types, functions and callers used by the core harness.
#pragma once
#include "hx.h"
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/reflect/value.h"
#include "types/reflect/type.h"
#include <memory>

using namespace reflect;
using hx::Strs; using hx::Cmd; using hx::S;

enum { NT = 6 };

/* -- tracked objects ---------------------------------------------------------------------------- */

struct Track {
    std::map<const void*, std::string> labels;  // live objects which have a name
    std::set<const void*> live;                 // live objects
    std::set<const void*> fns;                  // live callables
    long next = 0;
    Strs flags;
    Strs log;                                   // what the last command ran

    void born(const void* p) { if (!live.insert(p).second) flags.push_back("FLAG:ctor-on-live"); }
    void dead(const void* p) {
        if (!live.erase(p)) flags.push_back("FLAG:destroyed-twice");
        labels.erase(p);
    }
    void check(const void* p) { if (!live.count(p)) flags.push_back("FLAG:use-of-dead"); }
    std::string label(const void* p) {
        auto it = labels.find(p);
        return it == labels.end() ? "?" : it->second;
    }
    std::string name(const void* p) {
        auto it = labels.find(p);
        if (it != labels.end()) return it->second;
        return labels[p] = "s" + S(next++);
    }
};
extern Track T;

template<int N>
struct U
{
    int pay;
    char pad[12];
    U() : pay(0) { T.born(this); }
    explicit U(int p) : pay(p) { T.born(this); }
    U(const U& o) : pay(o.pay) { T.check(&o); T.born(this); }
    U(U&& o) : pay(o.pay) { T.check(&o); T.born(this); o.pay = -1; }
    U& operator=(const U&) = delete;
    ~U() { T.dead(this); }

    template<int Tag, typename R, typename... A> R mem(A... args);
    template<int Tag, typename R, typename... A> R cmem(A... args) const;
};

extern Type* types[NT];

namespace reflect {
template<int N>
struct Reflect< U<N> >
{
    typedef U<N> T_;
    static std::string id() { return "U" + std::to_string(N); }
    static void loader() {}
    static void reflect(Type* t) { types[N] = t; }
};
}

template<int N> U<N>& glob() { static U<N>* g = new U<N>(1000 + N); return *g; }

/* -- names of argument forms -------------------------------------------------------------------- */

inline std::string argName(const Argument& a)
{
    return a.type()->id()
        + (a.refType() == RefType::Copy ? ".C" : a.refType() == RefType::LValue ? ".L" : ".R")
        + (a.isConst() ? ".c" : ".n");
}

// Independent of Argument::make on purpose.
template<typename X> struct Id;
template<> struct Id<void> { static std::string id() { return "void"; } };
template<> struct Id<Value> { static std::string id() { return "reflect::Value"; } };
template<int N> struct Id< U<N> > { static std::string id() { return "U" + std::to_string(N); } };
template<typename X> struct Form {
    static std::string id() { return Id<X>::id() + ".C.n"; } };
template<typename X> struct Form<const X> {
    static std::string id() { return Id<X>::id() + ".C.c"; } };
template<typename X> struct Form<X&> {
    static std::string id() { return Id<X>::id() + ".L.n"; } };
template<typename X> struct Form<const X&> {
    static std::string id() { return Id<X>::id() + ".L.c"; } };
template<typename X> struct Form<X&&> {
    static std::string id() { return Id<X>::id() + ".R.n"; } };
template<typename X> struct Form<const X&&> {
    static std::string id() { return Id<X>::id() + ".R.c"; } };

template<typename... A> struct Forms;
template<> struct Forms<> { static std::string id() { return ""; } };
template<typename A> struct Forms<A> { static std::string id() { return Form<A>::id(); } };
template<typename A, typename... R> struct Forms<A, R...> {
    static std::string id() { return Form<A>::id() + "," + Forms<R...>::id(); } };

template<typename R, typename... A>
std::string sigName() { return Form<R>::id() + "(" + Forms<A...>::id() + ")"; }

/* -- function bodies ---------------------------------------------------------------------------- */

std::string describe(const Value& v);

template<typename A> struct See;
template<int N> struct See< U<N> > {
    static void see(U<N>& u) { T.log.push_back("C:" + T.label(&u) + ":" + S(u.pay)); u.pay = 7777; } };
template<int N> struct See< U<N>& > {
    static void see(U<N>& u) {
        T.log.push_back("L:" + T.label(&u) + ":" + S(u.pay)); T.check(&u); u.pay += 7; } };
template<int N> struct See< const U<N>& > {
    static void see(const U<N>& u) {
        T.log.push_back("K:" + T.label(&u) + ":" + S(u.pay)); T.check(&u); } };
template<int N> struct See< U<N>&& > {
    static void see(U<N>& u) { U<N> tmp(std::move(u)); T.log.push_back("R:" + S(tmp.pay)); } };
template<int N> struct See< const U<N>&& > {
    static void see(const U<N>& u) { T.log.push_back("R:" + S(u.pay)); } };
template<> struct See<Value> {
    static void see(Value& v) { T.log.push_back("V:" + describe(v)); } };
template<> struct See<Value&> {
    static void see(Value& v) { T.log.push_back("V:" + describe(v)); } };
template<> struct See<const Value&> {
    static void see(const Value& v) { T.log.push_back("V:" + describe(v)); } };

template<typename R> struct Give;
template<> struct Give<void> { static void give(int) {} };
template<> struct Give<Value> { static Value give(int) { return Value(glob<0>()); } };
template<int N> struct Give< U<N> > { static U<N> give(int t) { return U<N>(100 + t); } };
template<int N> struct Give< const U<N> > { static const U<N> give(int t) { return U<N>(100 + t); } };
template<int N> struct Give< U<N>& > { static U<N>& give(int) { return glob<N>(); } };
template<int N> struct Give< const U<N>& > { static const U<N>& give(int) { return glob<N>(); } };
template<int N> struct Give< U<N>&& > { static U<N>&& give(int) { return std::move(glob<N>()); } };

inline void seeAll() {}
template<typename A, typename... Rest, typename X, typename... Y>
void seeAll(X& x, Y&... y);
template<typename... A> struct SeeAll;
template<> struct SeeAll<> { static void see() {} };
template<typename A, typename... R> struct SeeAll<A, R...> {
    template<typename X, typename... Y>
    static void see(X& x, Y&... y) { See<A>::see(x); SeeAll<R...>::see(y...); }
};

// Member of every stored callable: counts the live ones.
struct Tok
{
    int state;
    explicit Tok(int s = 0) : state(s) { add(); }
    Tok(const Tok& o) : state(o.state) { T_check(&o); add(); }
    Tok(Tok&& o) : state(o.state) { T_check(&o); add(); o.state = -5; }
    ~Tok() { if (!T.fns.erase(this)) T.flags.push_back("FLAG:callable-destroyed-twice"); }
private:
    static void T_check(const Tok* o)
    { if (!T.fns.count(o)) T.flags.push_back("FLAG:use-of-dead-callable"); }
    void add() { if (!T.fns.insert(this).second) T.flags.push_back("FLAG:callable-ctor-on-live"); }
};

template<typename R, typename... A>
struct PoolFn
{
    Tok tag;
    explicit PoolFn(int t) : tag(t) {}
    R operator() (A... args) const
    {
        T.log.push_back("run:" + S(tag.state));
        SeeAll<A...>::see(args...);
        return Give<R>::give(tag.state);
    }
};

// A callable with state of its own and a non const call operator.
template<typename R, typename... A>
struct CountFn
{
    char big[72];
    Tok tag;
    int calls;
    explicit CountFn(int t) : tag(t), calls(0) { memset(big, 7, sizeof big); }
    R operator() (A... args)
    {
        calls++;
        for (char c : big) if (c != 7) T.flags.push_back("FLAG:callable-state-lost");
        T.log.push_back("run:" + S(tag.state + calls));
        SeeAll<A...>::see(args...);
        return Give<R>::give(tag.state);
    }
};

template<int Tag, typename R, typename... A>
R globFn(A... args)
{
    T.log.push_back("run:" + S(Tag));
    SeeAll<A...>::see(args...);
    return Give<R>::give(Tag);
}

template<int N> template<int Tag, typename R, typename... A>
R U<N>::mem(A... args)
{
    T.log.push_back("run:" + S(Tag));
    See<U<N>&>::see(*this);
    SeeAll<A...>::see(args...);
    return Give<R>::give(Tag);
}
template<int N> template<int Tag, typename R, typename... A>
R U<N>::cmem(A... args) const
{
    T.log.push_back("run:" + S(Tag));
    See<const U<N>&>::see(*this);
    SeeAll<A...>::see(args...);
    return Give<R>::give(Tag);
}

/* -- registries of functions -------------------------------------------------------------------- */

typedef std::function<Function(const std::string& name, int tag)> Maker;
extern std::map<std::string, Maker> makers;                    // "kind sig" -> maker
typedef std::function<Match(const Function&)> StaticTest;
extern std::map<std::string, StaticTest> staticTests;          // sig -> fn.test<Sig>()
typedef std::function<std::string(const Overloads&)> StaticGet; // sig -> ovl.test<Sig>(), get<Sig>()
extern std::map<std::string, StaticGet> staticGets;
extern std::map<std::string, std::function<Argument()> > argMakers;

template<typename R, typename... A>
void pool()
{
    std::string s = sigName<R, A...>();
    makers["fun " + s] = [] (const std::string& n, int t) {
        return Function(n, PoolFn<R, A...>(t)); };
    staticTests[s] = [] (const Function& f) { return f.test<R(A...)>(); };
}
template<typename R, typename... A>
void poolGet()
{
    staticTests[sigName<R, A...>()] = [] (const Function& f) { return f.test<R(A...)>(); };
    staticGets[sigName<R, A...>()] = [] (const Overloads& o) -> std::string {
        bool t = o.test<R(A...)>();
        try {
            const Function& f = o.get<R(A...)>();
            for (size_t i = 0; i < o.size(); ++i)
                if (&o[i] == &f) return (t ? "yes:" : "no:") + S(long(i));
            return "stray";
        } catch (const Error&) { return t ? "yes:err" : "no:err"; }
    };
}
template<typename R, typename... A>
void poolCount()
{
    makers["cnt " + sigName<R, A...>()] = [] (const std::string& n, int t) {
        return Function(n, CountFn<R, A...>(t)); };
}
template<typename R, typename... A>
void poolGlob()
{
    makers["glb " + sigName<R, A...>()] = [] (const std::string& n, int) {
        return Function(n, &globFn<903, R, A...>); };
}
template<typename R, int N, typename... A>
void poolMem()
{
    makers["mem " + sigName<R, U<N>&, A...>()] = [] (const std::string& n, int) {
        return Function(n, &U<N>::template mem<901, R, A...>); };
    makers["mem " + sigName<R, const U<N>&, A...>()] = [] (const std::string& n, int) {
        return Function(n, &U<N>::template cmem<902, R, A...>); };
}

/* -- callers ------------------------------------------------------------------------------------ */

extern std::vector<Value> V;
std::string setReg(int r, Value v);                            // stores and describes

// Where a typed argument comes from: object register number per argument
template<typename A> struct Arg;
template<> struct Arg<Value&> { static Value& get(int i) { return V[i]; } };
template<> struct Arg<const Value&> { static const Value& get(int i) { return V[i]; } };
template<> struct Arg<Value&&> { static Value get(int i) { return V[i]; } };
template<int N> U<N>& object(int i);
template<int N> struct Arg<U<N>&> { static U<N>& get(int i) { return object<N>(i); } };
template<int N> struct Arg<const U<N>&> { static const U<N>& get(int i) { return object<N>(i); } };
template<int N> struct Arg<U<N>&&> { static U<N>&& get(int i) { return std::move(object<N>(i)); } };
template<int N> struct Arg<const U<N>&&> { static const U<N>&& get(int i) {
    return std::move(const_cast<const U<N>&>(object<N>(i))); } };

template<typename R> struct Ret {
    template<typename F> static std::string go(int, const F& f) { R r = f(); return show(r); }
    template<int N> static std::string show(U<N>& u) { return "C:" + T.label(&u) + ":" + S(u.pay); }
};
template<int N> struct Ret< U<N>& > {
    template<typename F> static std::string go(int, const F& f) {
        U<N>& u = f(); T.check(&u); return "L:" + T.label(&u) + ":" + S(u.pay); } };
template<int N> struct Ret< const U<N>& > {
    template<typename F> static std::string go(int, const F& f) {
        const U<N>& u = f(); T.check(&u); return "K:" + T.label(&u) + ":" + S(u.pay); } };
template<> struct Ret<void> {
    template<typename F> static std::string go(int, const F& f) { f(); return "void"; } };
template<> struct Ret<Value> {
    template<typename F> static std::string go(int r, const F& f) { return setReg(r, f()); } };

struct Where { std::string mode; const Type* type; std::string name; const Overloads* ovl; size_t idx;
               int dst; std::vector<int> src; };
typedef std::function<std::string(const Where&)> Caller;
extern std::map<std::string, Caller> callers;

template<typename R> Strs sigR();

template<typename R>
void caller()
{
    callers[sigName<R>()] = [] (const Where& w) {
        return Ret<R>::go(w.dst, [&] () -> R {
            if (w.mode == "type") return w.type->call<R>(w.name);
            if (w.mode == "ovl") return w.ovl->call<R>();
            return (*w.ovl)[w.idx].call<R>();
        });
    };
}
template<typename R, typename A>
void caller()
{
    callers[sigName<R, A>()] = [] (const Where& w) {
        return Ret<R>::go(w.dst, [&] () -> R {
            if (w.mode == "type") return w.type->call<R>(w.name, Arg<A>::get(w.src[0]));
            if (w.mode == "ovl") return w.ovl->call<R>(Arg<A>::get(w.src[0]));
            if (w.mode == "val") return V[w.src[0]].call<R>(w.name);
            return (*w.ovl)[w.idx].call<R>(Arg<A>::get(w.src[0]));
        });
    };
}
template<typename R, typename A, typename B>
void caller()
{
    callers[sigName<R, A, B>()] = [] (const Where& w) {
        return Ret<R>::go(w.dst, [&] () -> R {
            if (w.mode == "type")
                return w.type->call<R>(w.name, Arg<A>::get(w.src[0]), Arg<B>::get(w.src[1]));
            if (w.mode == "ovl")
                return w.ovl->call<R>(Arg<A>::get(w.src[0]), Arg<B>::get(w.src[1]));
            if (w.mode == "val")
                return V[w.src[0]].call<R>(w.name, Arg<B>::get(w.src[1]));
            return (*w.ovl)[w.idx].call<R>(Arg<A>::get(w.src[0]), Arg<B>::get(w.src[1]));
        });
    };
}
template<typename R, typename A, typename B, typename C>
void caller()
{
    callers[sigName<R, A, B, C>()] = [] (const Where& w) {
        return Ret<R>::go(w.dst, [&] () -> R {
            return w.type->call<R>(w.name, Arg<A>::get(w.src[0]), Arg<B>::get(w.src[1]),
                    Arg<C>::get(w.src[2]));
        });
    };
}

void registerPool1();
void registerPool2();
void registerPool3();
void registerCallers1();
void registerCallers2();
void registerCallers3();
