// Containers harness: containers and pointers used through dynamic values (spec/Containers.tla).
#include "sigs.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"
#include <memory>

using namespace reflect;
using hx::Strs; using hx::Cmd; using hx::S;

struct Tr;
static std::set<const void*> alive;
// Addresses are never used twice so that they tell objects apart.
struct Tr
{
    Tr() : n(0) { alive.insert(this); }
    Tr(int n) : n(n) { alive.insert(this); }
    Tr(const Tr& o) : n(o.n) { alive.insert(this); }
    Tr(Tr&& o) : n(o.n) { o.n = -1; alive.insert(this); }
    Tr& operator=(const Tr& o) { n = o.n; return *this; }
    Tr& operator=(Tr&& o) { int x = o.n; o.n = -1; n = x; return *this; }
    virtual ~Tr() { alive.erase(this); }
    static void* operator new(size_t s) { return malloc(s); }
    static void* operator new(size_t s, void* p) { return p; }
    static void operator delete(void*) {}
    int n;
};
struct Tr2 : Tr
{
    Tr2() {}
    Tr2(int n) : Tr(n) {}
    Tr2(const Tr2&) = default;
    Tr2(Tr2&&) = default;
    Tr2& operator=(const Tr2&) = default;
    Tr2& operator=(Tr2&&) = default;
};
reflectType(Tr) { reflectPlumbing(); reflectAllocPlumbing(); }
reflectType(Tr2) { reflectParent(Tr); reflectPlumbing(); reflectAllocPlumbing(); }

typedef std::vector<int> VI;
typedef std::vector<Tr> VTr;
typedef std::vector<std::string> VSt;
typedef std::vector< std::vector<int> > VVI;
typedef std::vector< std::shared_ptr<Tr> > VSP;
typedef std::vector<Tr*> VRP;
typedef std::map<int, Tr> MTr;
typedef std::map< std::string, std::vector<int> > MV;
typedef std::unordered_map<std::string, int> UI;
typedef std::unordered_map< int, std::shared_ptr<Tr> > US;

static VI o0; static VTr o1; static MTr o2; static UI o3; static std::shared_ptr<Tr> o4; static std::unique_ptr<Tr> o5;
static Tr* o6 = nullptr; static VVI o7; static VSP o8; static MV o9; static std::string oA; static US oB; static VRP oC;
#define ROOTS(F) F(o0) F(o1) F(o2) F(o3) F(o4) F(o5) F(o6) F(o7) F(o8) F(o9) F(oA) F(oB) F(oC)

static std::map<const void*, std::string> cells;
static std::map<std::string, Value> V;

// What the model calls a content.
std::string show(int x) { return S(x); }
std::string show(unsigned long x) { return S(long(x)); }
std::string show(bool x) { return x ? "1" : "0"; }
std::string show(const std::string& s) { return s; }
std::string show(const Tr& t) { return S(t.n); }
std::string showPtr(const Tr* p)
{
    if (!p) return "null";
    std::string name = cells.count(p) ? cells[p] : "?";
    return name + (alive.count(p) ? ":" + S(p->n) : std::string(":gone"));
}
std::string show(Tr* const& p) { return showPtr(p); }
std::string show(Tr2* const& p) { return showPtr(p); }
template<typename T> std::string show(const std::shared_ptr<T>& p) { return showPtr(p.get()); }
template<typename T> std::string show(const std::unique_ptr<T>& p) { return showPtr(p.get()); }
template<typename T> std::string show(const std::vector<T>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + show(v[i]);
    return r + "]";
}
template<typename M> std::string showMap(const M& m)
{
    std::map<typename M::key_type, const typename M::mapped_type*> sorted;
    for (auto& e : m) sorted[e.first] = &e.second;
    std::string r = "{";
    bool first = true;
    for (auto& e : sorted) { r += (first ? "" : ",") + show(e.first) + "=" + show(*e.second); first = false; }
    return r + "}";
}
template<typename K, typename T> std::string show(const std::map<K, T>& m) { return showMap(m); }
template<typename K, typename T> std::string show(const std::unordered_map<K, T>& m) { return showMap(m); }

std::string content(const Value& v)
{
    static std::map< std::string, std::function<std::string(const void*)> > by;
    if (by.empty()) {
#define BY(id, T) by[id] = [] (const void* p) { return show(*static_cast<T const*>(p)); };
        BY("int", int) BY("unsigned long int", unsigned long) BY("bool", bool) BY("std::string", std::string)
        BY("Tr", Tr) BY("Tr2", Tr2) BY("std::vector<int>", VI) BY("std::vector<Tr>", VTr)
        BY("std::vector<std::string>", VSt) BY("std::vector<std::vector<int>>", VVI)
        BY("std::vector<std::shared_ptr<Tr>>", VSP) BY("std::vector<Tr*>", VRP) BY("std::map<int,Tr>", MTr)
        BY("std::map<std::string,std::vector<int>>", MV) BY("std::unordered_map<std::string,int>", UI)
        BY("std::unordered_map<int,std::shared_ptr<Tr>>", US) BY("std::shared_ptr<Tr>", std::shared_ptr<Tr>)
        BY("std::shared_ptr<Tr2>", std::shared_ptr<Tr2>) BY("std::unique_ptr<Tr>", std::unique_ptr<Tr>)
        BY("std::unique_ptr<Tr2>", std::unique_ptr<Tr2>)
        by["Tr*"] = [] (const void* p) { return showPtr(*(Tr**) p); };
        by["Tr2*"] = [] (const void* p) { return showPtr(*(Tr2**) p); };
    }
    auto it = by.find(v.typeId());
    return it == by.end() ? "?" + v.typeId() : it->second(v.value());
}
std::string desc(const Value& v)
{
    if (v.isVoid()) return "void";
    return sg::argStr(v.argument()) + (v.isStored() ? "|s|" : "|-|") + content(v);
}
// unordered maps list their keys in any order
void sortKeys(Value& v)
{
    if (v.typeId() == "std::vector<int>") { auto& x = v.as<VI>(); std::sort(x.begin(), x.end()); }
    if (v.typeId() == "std::vector<std::string>") { auto& x = v.as<VSt>(); std::sort(x.begin(), x.end()); }
}
void nameCell(const Value& v)
{
    if (v.typeId() != "Tr*" && v.typeId() != "Tr2*") return;
    const Tr* p = v.typeId() == "Tr*" ? *(Tr**) v.value() : *(Tr2**) v.value();
    cells[p] = "c" + S(long(cells.size()) + 1);
}

Value call(const Value& v, const std::string& f, const Strs& a, size_t from)
{
    switch (a.size() - from) {
    case 0: return v.call<Value>(f);
    case 1: return v.call<Value>(f, V[a[from]]);
    default: return v.call<Value>(f, V[a[from]], V[a[from + 1]]);
    }
}
Value build(const Type* t, bool heap, const Strs& a)
{
    const Overloads* f = heap ? &t->function("new") : nullptr;
    if (a.size() == 2) return heap ? t->alloc() : t->construct();
    if (a.size() == 3) return heap ? f->call<Value>(V[a[2]]) : t->construct(V[a[2]]);
    return heap ? f->call<Value>(V[a[2]], V[a[3]]) : t->construct(V[a[2]], V[a[3]]);
}

Strs run_(const Cmd& c)
{
    const Strs& a = c.a;
    const std::string& op = c.op;
    if (op == "lit") {
        long n = c.n[0];
        std::string s = n < 0 ? "" : "s" + S(n);
        V[a[0]] = a[1] == "int" ? Value(int(n)) : a[1] == "unsigned long int" ? Value((unsigned long) n)
            : a[1] == "Tr" ? Value(Tr(n)) : a[1] == "Tr2" ? Value(Tr2(n)) : Value(std::move(s));
        return { desc(V[a[0]]) };
    }
    if (op == "ref") {
#define REF(o) if (a[1] == #o) V[a[0]] = Value(o);
        ROOTS(REF)
        return { desc(V[a[0]]) };
    }
    if (op == "cref") {
#define CREF(o) if (a[1] == #o) { const auto& k = o; V[a[0]] = Value(k); }
        ROOTS(CREF)
        return { desc(V[a[0]]) };
    }
    if (op == "drop") { V[a[0]] = Value(); return { "ok" }; }
    if (op == "set") { Value v = V[a[1]]; V[a[0]] = v; return { desc(V[a[0]]) }; }
    if (op == "rval") { V[a[0]] = V[a[1]].rvalue(); return { desc(V[a[0]]) }; }
    if (op == "const") { V[a[0]] = V[a[1]].toConst(); return { desc(V[a[0]]) }; }
    if (op == "show") return { desc(V[a[0]]) };
    if (op == "same") return { V[a[0]].value() == V[a[1]].value() ? "1" : "0" };
    if (op == "count") { long n = 0; for (auto& v : V) n += v.second.isStored(); return { S(n) }; }
    if (op == "dump") {
        Strs r;
#define DUMP(o) if (x == #o) r.push_back(show(o));
        for (auto& x : a) { ROOTS(DUMP) }
        return r;
    }
    if (op == "write") {
        Value& v = V[a[0]];
        if (v.typeId() == "int") v.as<int>() = int(c.n[0]);
        else if (v.typeId() == "Tr") v.as<Tr>().n = int(c.n[0]);
        else return { "skip" };
        return { "ok" };
    }
    if (op == "info") {
        const Type* t = Registry::get(a[0]);
        Strs r;
        for (auto k : { "list", "map", "smartPtr", "string", "primitive", "bool", "integer", "float" })
            if (t->is(k)) r.push_back(k);
        r.push_back(t->is("valueType") ? t->getValue<const Type*>("valueType")->id()
                                       : t->isPointer() ? t->pointee()->id() : "");
        r.push_back(t->is("keyType") ? t->getValue<const Type*>("keyType")->id() : "");
        r.push_back(t->isPointer() ? t->pointer() : "-");
        for (auto& s : sg::ownSigs(t)) r.push_back(s);
        return r;
    }

    if (op == "assign") { V[a[0]].assign(V[a[1]]); return { "ok" }; }
    if (op == "eq") return { (V[a[0]] == V[a[1]]) ? "1" : "0" };
    if (op == "truth") {
        Strs r;
        try { r.push_back(bool(V[a[0]]) ? "1" : "0"); } catch (const Error&) { r.push_back("err"); }
        try { r.push_back(!V[a[0]] ? "1" : "0"); } catch (const Error&) { r.push_back("err"); }
        return r;
    }

    Value v;
    if (op == "new") v = build(Registry::get(a[1]), false, a);
    else if (op == "alloc") { v = build(Registry::get(a[1]), true, a); nameCell(v); }
    else if (op == "copy") v = V[a[1]].copy();
    else if (op == "move") v = V[a[1]].move();
    else if (op == "call") { v = call(V[a[1]], a[2], a, 3); if (a[2] == "keys") sortKeys(v); if (a[2] == "new") nameCell(v); }
    else if (op == "idx") v = V[a[1]][V[a[2]]];
    else if (op == "deref") v = *V[a[1]];
    else return { "unknown" };
    V[a[0]] = std::move(v);
    return { "ok", desc(V[a[0]]) };
}

Strs run(const Cmd& c)
{
    Strs r;
    try { r = run_(c); }
    catch (const Error&) { r.assign(1, "err"); }
    if (c.op != "info") r.push_back(S(long(alive.size())));
    return r;
}

int main(int argc, char** argv)
{
    // the types exist from the start
    type<VI>(); type<VTr>(); type<VSt>(); type<VVI>(); type<VSP>(); type<VRP>(); type<MTr>(); type<MV>(); type<UI>();
    type<US>(); type< std::shared_ptr<Tr> >(); type< std::shared_ptr<Tr2> >(); type< std::unique_ptr<Tr> >();
    type< std::unique_ptr<Tr2> >(); type<Tr*>(); type<Tr2*>();
    return hx::main(argc, argv, run);
}
