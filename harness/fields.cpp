// Fields harness: field access through dynamic values on real structs (spec/Fields.tla).
#include "hx.h"
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/reflect/value.h"
#include <cstddef>

using namespace reflect;
using hx::Strs; using hx::Cmd; using hx::S;

struct Pt { int x; int y; Pt() : x(0), y(0) {} };
struct In { In() : x(0), cx(0) {} int x; const int cx; Pt p; const Pt cp; };
struct Mid { Mid() : c(0), v(0), cv(0) {} char c; In in; const In cin; int v; const int cv; };
struct Base { Base() : pad(0), a(0), k(0), h(0) {} char pad; int a; Mid m; const int k; int h; const Mid cm; };
struct Der : Base { Der() : a(0), b(0) {} int a; Mid m2; Pt k; int b; };
struct Der2 : Der {
    Der2() : z(0), k(0), priv(0) {}
    In h; int z; const int k; Pt pt;
    static size_t privOff() { return offsetof(Der2, priv); }
private:
    friend struct reflect::Reflect<Der2>;
    int priv;
};
struct Hold { Hold() : n(0) {} Der2 d; const Der2 cd; int n; };

#define STRUCTS(F) F(Pt) F(In) F(Mid) F(Base) F(Der) F(Der2) F(Hold)

reflectType(Pt) { reflectPlumbing(); reflectField(x); reflectField(y); }
reflectType(In) { reflectCopyCons(); reflectField(x); reflectField(cx); reflectField(p); reflectField(cp); }
reflectType(Mid) { reflectCopyCons(); reflectField(in); reflectField(cin); reflectField(v); reflectField(cv); }
reflectType(Base) {
    reflectCopyCons(); reflectField(a); reflectField(m); reflectField(k); reflectField(h); reflectField(cm);
    type_->addField<int>("also_a", offsetof(T_, a));            // the same member under another name
    type_->addField<const int>("ro_a", offsetof(T_, a));        // and as a read only one
}
reflectType(Der) { reflectCopyCons(); reflectParent(Base); reflectField(a); reflectField(m2); reflectField(k);
    reflectField(b); }
reflectType(Der2) { reflectParent(Der); reflectCopyCons(); reflectField(h); reflectField(z); reflectField(k);
    reflectField(pt); reflectField(priv); }
reflectType(Hold) { reflectCopyCons(); reflectField(d); reflectField(cd); reflectField(n); }

// The layout as the compiler sees it: type, member, type, const, offset.
struct M { const char* t; const char* n; const char* mt; const char* c; size_t off; };
static const M members[] = {
#define MEM(t, n, mt, c) { #t, #n, #mt, c, offsetof(t, n) }
    MEM(Pt, x, int, "n"), MEM(Pt, y, int, "n"),
    MEM(In, x, int, "n"), MEM(In, cx, int, "c"), MEM(In, p, Pt, "n"), MEM(In, cp, Pt, "c"),
    MEM(Mid, in, In, "n"), MEM(Mid, cin, In, "c"), MEM(Mid, v, int, "n"), MEM(Mid, cv, int, "c"),
    MEM(Base, a, int, "n"), MEM(Base, m, Mid, "n"), MEM(Base, k, int, "c"), MEM(Base, h, int, "n"),
    MEM(Base, cm, Mid, "c"),
    { "Base", "also_a", "int", "n", offsetof(Base, a) }, { "Base", "ro_a", "int", "c", offsetof(Base, a) },
    MEM(Der, a, int, "n"), MEM(Der, m2, Mid, "n"), MEM(Der, k, Pt, "n"), MEM(Der, b, int, "n"),
    MEM(Der2, h, In, "n"), MEM(Der2, z, int, "n"), MEM(Der2, k, int, "c"), MEM(Der2, pt, Pt, "n"),
    { "Der2", "priv", "int", "n", Der2::privOff() },
    MEM(Hold, d, Der2, "n"), MEM(Hold, cd, Der2, "c"), MEM(Hold, n, int, "n"),
};

struct Obj { std::string name, type; char* p; size_t size; };
static std::vector<Obj> objs;
static std::map<std::string, Value> regs;
static std::vector<Value> keep;            // field values don't keep what they belong to
static int copies;

size_t sizeOf(const std::string& t)
{
#define SZ(T) if (t == #T) return sizeof(T);
    STRUCTS(SZ)
    return sizeof(int);
}
std::string parentOf(const std::string& t) { return t == "Der" ? "Base" : t == "Der2" ? "Der" : ""; }

void leaves(const std::string& t, size_t off, std::set<size_t>& out)
{
    if (t == "int") { out.insert(off); return; }
    for (std::string x = t; !x.empty(); x = parentOf(x))
        for (auto& m : members) if (x == m.t) leaves(m.mt, off + m.off, out);
}
std::string where(const void* p)
{
    for (auto& o : objs)
        if ((const char*) p >= o.p && (const char*) p < o.p + o.size) return o.name + "+" + S((const char*) p - o.p);
    return "?";
}
int& at(const Obj& o, size_t off) { return *(int*)(o.p + off); }
Obj& obj(const std::string& n) { for (auto& o : objs) if (o.name == n) return o; abort(); }

std::string show(const Value& v)
{
    return v.typeId() + (v.refType() == RefType::Copy ? ".C" : v.refType() == RefType::LValue ? ".L" : ".R")
        + (v.isConst() ? ".c" : ".n") + "@" + (v.isVoid() ? "-" : where(v.value()));
}
Strs err() { return Strs(1, "err"); }

template<typename T> Strs pts(const T& p) { return Strs{ "ok", S(p.x), S(p.y) }; }

template<typename T> Strs getRef(const Value& v, const std::string& n, bool c)
{
    return Strs{ "ok", where(c ? (const void*) &v.field<const T&>(n) : (const void*) &v.field<T&>(n)) };
}

Strs run_(const Cmd& c)
{
    const Strs& a = c.a;
    const std::string& op = c.op;
    if (op == "obj") {
        Obj o { a[0], a[1], nullptr, sizeOf(a[1]) };
#define NEW(T) if (a[1] == #T) o.p = (char*) new T();
        STRUCTS(NEW)
        std::set<size_t> l;
        leaves(a[1], 0, l);
        int k = int(c.n[0]);
        for (auto x : l) at(o, x) = k++;
        objs.push_back(o);
        return Strs();
    }
    if (op == "vref" || op == "vcref") {
        Obj& o = obj(a[1]);
#define REF(T) if (o.type == #T) { T* p = (T*) o.p; const T* q = p; \
            regs[a[0]] = op == "vref" ? Value(*p) : Value(*q); }
        STRUCTS(REF)
        return Strs(1, show(regs[a[0]]));
    }
    if (op == "vset") { regs[a[0]] = regs[a[1]]; return Strs(1, show(regs[a[0]])); }
    if (op == "vconst") { regs[a[0]] = regs[a[1]].toConst(); return Strs(1, show(regs[a[0]])); }
    if (op == "vrval") { regs[a[0]] = regs[a[1]].rvalue(); return Strs(1, show(regs[a[0]])); }
    if (op == "vcopy") {
        Value v = regs[a[1]].copy();
        keep.push_back(v);
        objs.push_back(Obj { "c" + S(copies++), v.typeId(), (char*) v.value(), sizeOf(v.typeId()) });
        regs[a[0]] = v;
        return Strs(1, show(v));
    }
    const Value& v = regs[a.empty() ? "" : a[0]];
    if (op == "fld") { Value r = regs[a[1]].field(a[2]); regs[a[0]] = r; return Strs(1, show(r)); }
    if (op == "path") {                 // a chain of accesses
        Value r = regs[a[1]];
        for (size_t i = 2; i < a.size(); ++i) r = r.field(a[i]);
        regs[a[0]] = r;
        return Strs(1, show(r));
    }
    if (op == "fget") {                 // typed access
        const std::string& n = a[1];
        const std::string& k = a[2];
        if (k == "int") return Strs{ "ok", S(v.field<int>(n)) };
        if (k == "int&") return getRef<int>(v, n, false);
        if (k == "const int&") return getRef<int>(v, n, true);
        if (k == "Pt") return pts(v.field<Pt>(n));
        if (k == "Pt&") return getRef<Pt>(v, n, false);
        if (k == "const Pt&") return getRef<Pt>(v, n, true);
        if (k == "In&") return getRef<In>(v, n, false);
        if (k == "const In&") return getRef<In>(v, n, true);
        if (k == "Base&") return getRef<Base>(v, n, false);
        if (k == "const Base&") return getRef<Base>(v, n, true);
        if (k == "double") return Strs{ "ok", S(long(v.field<double>(n))) };
        abort();
    }
    if (op == "fwrite") { v.field<int&>(a[1]) = int(c.n[0]); return Strs(1, "ok"); }
    if (op == "assign") { v.assign(int(c.n[0])); return Strs(1, "ok"); }
    if (op == "assignv") { v.assign(regs[a[1]]); return Strs(1, "ok"); }
    if (op == "vget") return Strs{ "ok", S(v.get<int>()) };
    if (op == "raw") { at(obj(a[0]), c.n[0]) = int(c.n[1]); return Strs(); }
    if (op == "dump") {
        Strs r;
        for (auto& o : objs) {
            std::set<size_t> l;
            leaves(o.type, 0, l);
            for (auto x : l) r.push_back(o.name + "+" + S(x) + "=" + S(at(o, x)));
        }
        return r;
    }
    if (op == "has") {
        Strs r;
        for (size_t i = 1; i < a.size(); ++i) r.push_back(type(a[0])->hasField(a[i]) ? "1" : "0");
        return r;
    }
    if (op == "list") return type(a[0])->fields();
    if (op == "meta") {
        const Field& f = type(a[0])->field(a[1]);
        return Strs{ "ok", f.name(), f.type()->id(), f.argument().isConst() ? "c" : "n", S(f.offset()),
            f.argument().refType() == RefType::Copy ? "C" : "?" };
    }
    abort();
}
Strs run(const Cmd& c)
{
    try { return run_(c); } catch (const reflect::Error&) { return err(); }
}

int main(int argc, char** argv)
{
    if (argc == 3 && std::string(argv[1]) == "--pool") {
        std::ofstream f(argv[2]);
        f << "{\"members\":[";
        bool first = true;
        for (auto& m : members) {
            f << (first ? "" : ",") << "[\"" << m.t << "\",\"" << m.n << "\",\"" << m.mt << "\",\"" << m.c << "\","
              << m.off << "]";
            first = false;
        }
        f << "]}\n";
        return 0;
    }
    const Type* t[] = { type<Hold>(), type<int>(), type<double>() };
    (void) t;
    return hx::main(argc, argv, run);
}
