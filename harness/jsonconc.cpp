// JSON used by several threads: histories for spec/TraceJsonConc.tla.
#define SCHED_MAIN
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
#include "conc.h"

using namespace reflect;
using hx::Strs;

// Types which contain each other.
struct B; struct C;
struct A { A() : x(0), next(nullptr) {} int64_t x; std::vector<B> bs; A* next; };
struct B { std::string s; std::shared_ptr<A> a; std::map<std::string, C> m; };
struct C { C() : d(0), flag(false) {} double d; std::vector<std::string> names; std::shared_ptr<C> next; bool flag; };
struct D { D() : n(0) {} int64_t n; };                     // custom
struct E { std::vector<D> ds; std::map<std::string, A> as; D one; };
struct F { F() : p(nullptr) {} E* p; std::vector< std::vector<int64_t> > v; std::string t; };

// every member is set: json::Traits() leaves skipEmpty as it finds it
static json::Traits skipEmpty() { json::Traits t; t.skip = false; t.skipEmpty = true; return t; }
static json::Traits alias(const std::string& name) { json::Traits t; t.skip = t.skipEmpty = false; t.alias = name; return t; }
reflectType(A) { reflectPlumbing(); reflectAlloc(); reflectField(x); reflectField(bs); reflectField(next); }
reflectType(B) { reflectPlumbing(); reflectAlloc(); reflectField(s); reflectField(a); reflectField(m);
    reflectFieldValue(s, json, alias("text")); }
reflectType(C) { reflectPlumbing(); reflectAlloc(); reflectField(d); reflectField(names); reflectField(next); reflectField(flag);
    reflectFieldValue(names, json, skipEmpty()); }
reflectType(D)
{
    reflectPlumbing(); reflectAlloc();
    reflectTypeValue(json, json::custom("parse", "print"));
    reflectCustom(parse) (D& d, json::Reader& reader) { d.n = json::parseInt(reader) * 2; };
    reflectCustom(print) (const D& d, json::Writer& writer) { json::printInt(writer, d.n / 2); };
}
reflectType(E) { reflectPlumbing(); reflectAlloc(); reflectField(ds); reflectField(as); reflectField(one); }
reflectType(F) { reflectPlumbing(); reflectField(p); reflectField(v); reflectField(t); }

// What was parsed, without the library.
static std::string S(int64_t v) { return std::to_string(v); }
static std::string dump(const A& v);
static std::string dump(const C& v)
{
    std::string r = "C(" + S(int64_t(v.d * 100)) + (v.flag ? "t" : "f");
    for (auto& n : v.names) r += "," + n;
    return r + (v.next ? dump(*v.next) : "") + ")";
}
static std::string dump(const B& v)
{
    std::string r = "B(" + v.s + (v.a ? dump(*v.a) : "-");
    for (auto& x : v.m) r += x.first + "=" + dump(x.second);
    return r + ")";
}
static std::string dump(const A& v)
{
    std::string r = "A(" + S(v.x);
    for (auto& b : v.bs) r += dump(b);
    return r + (v.next ? dump(*v.next) : "") + ")";
}
static std::string dump(const D& v) { return "D" + S(v.n); }
static std::string dump(const E& v)
{
    std::string r = "E(" + dump(v.one);
    for (auto& d : v.ds) r += dump(d);
    for (auto& x : v.as) r += x.first + "=" + dump(x.second);
    return r + ")";
}
static std::string dump(const F& v)
{
    std::string r = "F(" + v.t + (v.p ? dump(*v.p) : "-");
    for (auto& x : v.v) { r += "["; for (auto y : x) r += S(y) + ","; r += "]"; }
    return r + ")";
}
static std::string dump(const std::vector<int64_t>& v) { std::string r; for (auto x : v) r += S(x) + ";"; return r; }
static std::string dump(const std::map<std::string, C>& v) { std::string r; for (auto& x : v) r += x.first + dump(x.second); return r; }

static const char* docs[] = {
    "{\"x\":12,\"bs\":[{\"text\":\"q\",\"a\":{\"x\":3,\"next\":{\"x\":4}},\"m\":{\"k\":{\"d\":1.5,\"names\":[\"u\",\"v\"]}}},{\"text\":\"w\"}],\"next\":null}",
    "{\"text\":\"hello\",\"a\":{\"x\":-1,\"bs\":[{\"text\":\"in\"}]},\"m\":{\"a\":{\"flag\":true},\"b\":{\"next\":{\"d\":2}}}}",
    "{\"d\":0.25,\"names\":[\"one\"],\"next\":{\"d\":3,\"next\":{\"flag\":true}},\"flag\":false,\"unknown\":[1,{}]}",
    "21",
    "{\"one\":4,\"ds\":[1,2,3],\"as\":{\"z\":{\"x\":8,\"bs\":[{}]}}}",
    "{\"t\":\"x\",\"p\":{\"one\":7,\"as\":{}},\"v\":[[1,2],[],[3]]}",
    "[5,6,7]",
    "{\"k\":{\"d\":9},\"l\":{\"names\":[\"z\"]}}",
};
static const char* wrong[] = {
    "{\"x\":12,\"bs\":[{\"text\":1}]}", "{\"text\":\"a\",\"m\":[]}", "{\"d\":\"x\"}", "true", "{\"ds\":[1,false]}",
    "{\"v\":[[1,2],3]}", "[5,6,x]", "{\"k\":{\"d\":9},",
};

template<typename T> static void job(const std::string& what, int k, Strs& r)
{
    T v;
    r.push_back(what);
    json::Error e = json::parse(std::string(what == "fail" ? wrong[k] : docs[k]), v);
    r.push_back(e ? "error " + std::string(e.what()) : "ok");
    r.push_back(dump(v));
    if (what == "both") {
        auto out = json::print(v);
        r.push_back(out.second ? "error " + std::string(out.second.what()) : out.first);
    }
}

template<typename T> static T make();
template<> A make<A>() { A a; a.x = 1; a.bs.resize(2); a.bs[0].s = "p"; a.bs[1].a = std::make_shared<A>(); a.next = new A(); return a; }
template<> B make<B>() { B b; b.s = "bb"; b.a = std::make_shared<A>(); b.m["c"].d = 1.25; return b; }
template<> C make<C>() { C c; c.d = 2; c.names.push_back("n"); c.next = std::make_shared<C>(); return c; }
template<> D make<D>() { D d; d.n = 84; return d; }
template<> E make<E>() { E e; e.one.n = 2; e.ds.resize(2); e.as["a"].x = 3; return e; }
template<> F make<F>() { F f; f.t = "ff"; f.p = new E(); f.v.resize(2); f.v[1].push_back(4); return f; }
template<> std::vector<int64_t> make< std::vector<int64_t> >() { return std::vector<int64_t>{1, 2}; }
template<> std::map<std::string, C> make< std::map<std::string, C> >() { std::map<std::string, C> m; m["x"].d = 5; return m; }

template<typename T> static void dispatch(const std::string& what, int k, Strs& r)
{
    if (what != "print") { job<T>(what, k, r); return; }
    T v = make<T>();
    r.push_back("print");
    auto out = json::print(v);
    r.push_back(out.second ? "error " + std::string(out.second.what()) : out.first);
}

static void op(const Strs& c, Strs& r)
{
    try {
        if (c[1] == "A") dispatch<A>(c[0], 0, r);
        else if (c[1] == "B") dispatch<B>(c[0], 1, r);
        else if (c[1] == "C") dispatch<C>(c[0], 2, r);
        else if (c[1] == "D") dispatch<D>(c[0], 3, r);
        else if (c[1] == "E") dispatch<E>(c[0], 4, r);
        else if (c[1] == "F") dispatch<F>(c[0], 5, r);
        else if (c[1] == "V") dispatch< std::vector<int64_t> >(c[0], 6, r);
        else if (c[1] == "M") dispatch< std::map<std::string, C> >(c[0], 7, r);
        else abort();
    }
    catch (const reflect::Error& e) { r.push_back(std::string("exception ") + e.what()); }
}

int main(int argc, char** argv)
{
    conc::Hooks h;
    h.setup = [] (const Strs& c) { Strs r; op(c, r); };
    h.op = op;
    h.end = [] (std::vector<conc::Event>&) {};
    return conc::main(argc, argv, h);
}
