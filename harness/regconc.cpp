// The registry used by several threads: histories for spec/TraceRegConc.tla.
#define SCHED_MAIN
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "conc.h"

using namespace reflect;
using hx::Strs;

struct S0 {}; struct S1 {}; struct S2 {};
template<typename T> struct Box {};

static void load(Type* type, const std::string& body);

reflectTypeDecl(S0)
reflectTypeDecl(S1)
reflectTypeDecl(S2)
reflectTypeImpl(S0) { load(type_, "B0"); }
reflectTypeImpl(S1) { load(type_, "B1"); }
reflectTypeImpl(S2) { load(type_, "B2"); }

template<typename T> const char* bodyOf() { return "B3"; }
template<> const char* bodyOf<int>() { return "B0"; }
template<> const char* bodyOf<long>() { return "B1"; }
template<> const char* bodyOf<double>() { return "B2"; }
reflectTemplate(Box, T) { load(type_, bodyOf<T>()); }

static std::map<std::string, std::vector<Strs> >& bodies()
{
    static auto* b = new std::map<std::string, std::vector<Strs> >();
    return *b;
}
static thread_local Strs* answer = nullptr;

static std::string ptr(const Type* t) { char b[32]; snprintf(b, sizeof b, "@%p", (const void*)t); return b; }

static const Type* getT(const std::string& n)
{
    if (n == "Box<int>") return type< Box<int> >();
    if (n == "Box<long int>") return type< Box<long> >();
    if (n == "Box<double>") return type< Box<double> >();
    if (n == "Box<Box<int>>") return type< Box< Box<int> > >();
    if (n == "S0") return type<S0>();
    if (n == "S1") return type<S1>();
    if (n == "S2") return type<S2>();
    abort();
}

// Types of the library itself, which are complete when they have what their last declaration gives.
template<typename T> static void lib(Strs& r, bool complete(const Type*))
{
    const Type* t = type<T>();
    r.push_back("get"); r.push_back(t->id()); r.push_back(complete(t) ? "done" : "building"); r.push_back(ptr(t));
}
static bool isList(const Type* t) { return t->is("list") && t->hasFunction("size") && t->hasFunction("at"); }
static bool isMap(const Type* t) { return t->is("map") && t->hasFunction("size") && t->hasFunction("keys"); }
static bool isPtr(const Type* t) { return t->isPointer() && t->isCopiable() && t->hasFunction("operator*") && t->hasFunction("operator bool()"); }
static bool isUnique(const Type* t) { return t->isPointer() && t->isMovable() && t->hasFunction("reset"); }

static void libOp(const std::string& n, Strs& r)
{
    if (n == "1") lib< std::vector<int> >(r, isList);
    else if (n == "2") lib< std::vector< std::vector<int> > >(r, isList);
    else if (n == "3") lib< std::map<std::string, int> >(r, isMap);
    else if (n == "4") lib< std::map<std::string, std::vector<int> > >(r, isMap);
    else if (n == "5") lib< std::shared_ptr<int> >(r, isPtr);
    else if (n == "6") lib< std::unique_ptr<long> >(r, isUnique);
    else if (n == "7") lib< int* >(r, isPtr);
    else if (n == "8") lib< int** >(r, isPtr);
    else abort();
}

static void op(const Strs& c, Strs& r)
{
    Strs* outer = answer;
    answer = &r;
    std::string what = c[0] == "getT" ? "get" : c[0];
    try {
        if (what == "get") {
            const Type* t = c[0] == "getT" ? getT(c[1]) : type(c[1]);
            r.push_back("get");
            r.push_back(t->id() == "Box<Box<int> >" ? "Box<Box<int>>" : t->id());
            r.push_back(t->is("done") ? "done" : "building");
            r.push_back(ptr(t));
        }
        else if (what == "add") {
            std::string b = c[2];
            Registry::add(c[1], [b] (Type* t) { load(t, b); });
            r.push_back("add");
        }
        else if (what == "alias") {
            Registry::alias(c[1], c[2]);
            r.push_back("alias"); r.push_back("ok");
        }
        else if (what == "lib") libOp(c[1], r);
        else if (what == "conv") {
            Argument a = Argument::make<S0>();
            Argument b = Argument::make<S1>();
            Match m = a.isConvertibleTo(b);
            r.push_back("conv"); r.push_back(m == Match::None ? "none" : "match");
        }
        else abort();
    }
    catch (const Error&) { r.push_back(what); r.push_back("error"); }
    answer = outer;
}

static void load(Type* type, const std::string& body)
{
    Strs none;
    Strs& r = answer ? *answer : none;
    r.push_back("load"); r.push_back(type->id());
    for (auto& c : bodies()[body]) {
        sched::point(false);
        Strs nested;
        op(c, nested);
        r.insert(r.end(), nested.begin(), nested.end());
    }
    sched::point(false);
    type->addTrait("done");
    r.push_back("loaded");
}

static void setup(const Strs& c)
{
    if (c[0] == "body") bodies()[c[1]].push_back(Strs(c.begin() + 2, c.end()));
    else { Strs r; op(c, r); }
}

// A type is the same object whoever asks.
static void end(std::vector<conc::Event>& ev)
{
    std::map<std::string, std::string> seen;
    for (auto& e : ev) if (e.k == "r") for (size_t i = 2; i < e.x.size(); ++i) if (e.x[i][0] == '@') {
        auto it = seen.emplace(e.x[i - 2], e.x[i]).first;
        e.x[i] = it->second == e.x[i] ? "same" : "different";
    }
}

int main(int argc, char** argv)
{
    for (const char* b : { "B0", "B1", "B2", "B3" }) bodies()[b];
    conc::Hooks h;
    h.setup = setup;
    h.op = op;
    h.end = end;
    return conc::main(argc, argv, h);
}
