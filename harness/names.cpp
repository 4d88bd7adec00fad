// Names harness: qualified names, scopes, the registry and traits (spec/Names.tla).
#include "hx.h"
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/smart_ptr.h"
#include "types/pointer.h"
#include "types/reflect/type.h"

using namespace reflect;
using hx::Strs; using hx::Cmd; using hx::S;

static Strs logs;                                            // what loaders did
static std::map<std::string, std::vector<Strs> > bodies;
static std::map<std::string, const Type*> seenTypes;
static std::map<std::string, const Scope*> seenScopes;
static std::set<std::string> baseTypes, baseScopes, baseFns;
static Scope* reg[6];
static Traits* ent[6];
static std::string entName[6];
static std::function<Strs()> entPrint[6];
static std::map<std::string, Traits*> traited;
static int* cell(int k) { static int cells[100]; cells[k] = k; return &cells[k]; }
static Scope root;

void runBody(const std::string& body, Type* type);
void nestedLoad(const std::string& body, Type* type)
{
    logs.push_back("load:" + type->id() + ":" + body);
    runBody(body, type);
    logs.push_back("end:" + type->id());
}

namespace nt { struct T0 {}; struct T1 {}; struct P0 {}; }
struct P1 {};

namespace reflect {
#define TMPL(T, name, body)                                             \
    template<> struct Reflect< T > {                                    \
        typedef T T_;                                                   \
        static std::string id() { return name; }                        \
        static void reflect(Type* t) { nestedLoad(body, t); }           \
        reflectTemplateLoader()                                         \
    };
TMPL(nt::T0, "nt::T0", "T0")
TMPL(nt::T1, "nt::T1", "T1")
}
template<typename X> struct tq {};
reflectTemplate(tq, X) { nestedLoad("T2", type_); }
reflectTypeDecl(nt::P0)
reflectTypeDecl(P1)
void Reflect<nt::P0>::reflect(Type* t) { nestedLoad("P0", t); }
void Reflect<P1>::reflect(Type* t) { nestedLoad("P1", t); }

std::string typeName(const Type* t)
{
    auto it = seenTypes.emplace(t->id(), t).first;
    return it->second == t ? t->id() : "FLAG:second type object of " + t->id();
}

// the path by which a scope is reached, from its own parents
std::string label(const Scope* s)
{
    std::string l;
    const Scope* x = s;
    for (; x->parent(); x = x->parent()) l = "/" + x->name() + l;
    l = (x == Registry::globalScope() ? "G" : x == &root ? "R" : "?") + l;
    auto it = seenScopes.emplace(l, s).first;
    return it->second == s ? l : "FLAG:second scope object of " + l;
}
std::string fullId(const Scope* s, const std::string& n) { return Scope::join(s->id(), n); }
bool inG(const Scope* s) { while (s->parent()) s = s->parent(); return s == Registry::globalScope(); }

template<typename F> Strs lookup(F f)
{
    Strs r(1);
    logs.clear();
    try { r[0] = typeName(f()); } catch (const reflect::Error&) { r[0] = "err"; }
    for (auto& l : logs) r.push_back(l);
    return r;
}
template<typename F> Strs okErr(F f)
{
    Strs r(1);
    logs.clear();
    try { f(); r[0] = "ok"; } catch (const reflect::Error&) { r[0] = "err"; }
    for (auto& l : logs) r.push_back(l);
    return r;
}

const Type* getT(const std::string& x)
{
    if (x == "T0") return type<nt::T0>();
    if (x == "T1") return type<nt::T1>();
    if (x == "T2") return type< tq<nt::T0> >();
    if (x == "P0") return type<nt::P0>();
    if (x == "P1") return type<P1>();
    abort();
}

void radd(const std::string& name, const std::string& body)
{
    Registry::add(name, [=] (Type* t) { nestedLoad(body, t); });
}

void runBody(const std::string& body, Type* self)
{
    std::vector<Strs> cmds = bodies[body];
    for (auto& c : cmds) {
        std::string res;
        auto get = [&] (std::function<const Type*()> f) {
            try { return typeName(f()); } catch (const reflect::Error&) { return std::string("err"); } };
        auto ok = [&] (std::function<void()> f) {
            try { f(); return std::string("ok"); } catch (const reflect::Error&) { return std::string("err"); } };
        if (c[0] == "get") res = "get:" + c[1] + "=" + get([&] { return type(c[1]); });
        else if (c[0] == "getT") res = "getT:" + c[1] + "=" + get([&] { return getT(c[1]); });
        else if (c[0] == "self") {
            res = "self=" + get([&] { return type(self->id()); });
        }
        else if (c[0] == "add") res = "add:" + c[1] + "=" + ok([&] { radd(c[1], c[2]); });
        else if (c[0] == "alias") res = "alias:" + c[2] + "=" + ok([&] { Registry::alias(c[1], c[2]); });
        else if (c[0] == "typ")
            res = "typ:" + c[1] + "=" + get([&] { return Registry::globalScope()->type(c[1]); });
        else if (c[0] == "field") res = "field=" + ok([&] { self->addField<int>(c[1], 0); });
        else abort();
        logs.push_back(res);
    }
}

template<typename F> void withFn(const std::string& sig, int k, F f)
{
    if (sig == "i()") f([k] { return k; });
    else if (sig == "i(i)") f([k] (int x) { return k + x; });
    else if (sig == "i(i,i)") f([k] (int x, int y) { return k + x + y; });
    else abort();
}
std::string sigOf(const Function& f)
{
    static const char* s[] = { "i()", "i(i)", "i(i,i)" };
    return f.arguments() < 3 ? s[f.arguments()] : "?";
}
// the lines of a printed description, each with the place it describes, whatever the white space:
//   place|type, place|scope, place|type X, place|[trait], place|name[trait], place|field, place|fn#i:signature
Strs described(const std::string& text, bool global = false)
{
    Strs r, path;
    std::vector<std::string> fnOf(1), full(1);
    std::vector<int> nth(1);
    std::stringstream ss(text);
    std::string line, opens;
    auto at = [&] { std::string p; for (auto& x : path) p += "/" + x; return p; };
    auto known = [&] (const std::set<std::string>& base, const std::string& n) {
        return global && base.count(Scope::join(full.back(), n)); };
    auto traits = [&] (const std::string& of, const std::string& l) {
        std::stringstream ts(l.substr(1, l.size() - 2));
        std::string t;
        while (ts >> t) r.push_back(at() + "|" + of + "[" + t + "]");
    };
    int hidden = 0;
    while (std::getline(ss, line)) {
        size_t b = line.find_first_not_of(" \t");
        if (b == std::string::npos) continue;
        line = line.substr(b, line.find_last_not_of(" \t") + 1 - b);
        bool scope = line == "scope" || line.compare(0, 6, "scope ") == 0;
        if (line == "{") { if (opens.empty()) r.push_back("FLAG:brace"); opens.clear(); }
        else if (line == "}") {
            if (path.empty()) { r.push_back("FLAG:closes"); continue; }
            path.pop_back(); full.pop_back(); fnOf.pop_back(); nth.pop_back();
            if (hidden) hidden--;
        }
        else if (!opens.empty()) r.push_back("FLAG:" + line);
        else if (scope || (line.compare(0, 5, "type ") == 0 && line.back() != ';')) {
            std::string n = line.size() > 5 ? line.substr(scope ? (line.size() > 6 ? 6 : 5) : 5) : "";
            if (hidden || (scope && !path.empty() && known(baseScopes, n))) hidden++;
            full.push_back(path.empty() ? "" : Scope::join(full.back(), n));
            path.push_back(n); fnOf.push_back(""); nth.push_back(0);
            if (!hidden) r.push_back(at() + (scope ? "|scope" : "|type"));
            opens = "{";
        }
        else if (hidden) continue;
        else if (line[0] == '[') {
            if (!(known(baseFns, fnOf.back()) && !fnOf.back().empty())) traits(fnOf.back(), line);
        }
        else if (line.compare(0, 2, "0x") == 0) {
            size_t t = line.find(" [");
            r.push_back(at() + "|" + line.substr(0, t));
            if (t != std::string::npos) traits(line.substr(line.rfind(' ', t - 1) + 1, t - 1 - line.rfind(' ', t - 1)), line.substr(t + 1));
        }
        else if (line.compare(0, 5, "type ") == 0) {
            std::string n = line.substr(5, line.size() - 6);
            if (!known(baseTypes, n)) r.push_back(at() + "|type " + n);
        }
        else if (line.back() == ':') { fnOf.back() = line.substr(0, line.size() - 1); nth.back() = 0; }
        else if (line.back() == ')') {
            nth.back()++;
            if (!known(baseFns, fnOf.back()) || fnOf.back().empty())
                r.push_back(at() + "|" + fnOf.back() + "#" + S(nth.back()) + ":" + line);
        }
        else r.push_back("FLAG:" + line);
    }
    if (!path.empty()) r.push_back("FLAG:open");
    return r;
}

Strs sigs(const Overloads& o)
{
    Strs r(1, "ok");
    for (size_t i = 0; i < o.size(); ++i) r.push_back(sigOf(o[i]));
    return r;
}

void dump(const Scope* s, Strs& r)
{
    if (!baseScopes.count(s->id()) || !s->parent()) r.push_back("S:" + label(s));
    for (auto& t : s->types())
        if (!inG(s) || !baseTypes.count(fullId(s, t))) r.push_back("T:" + label(s) + ":" + t);
    for (auto& f : s->functions())
        if (!inG(s) || !baseFns.count(fullId(s, f)))
            r.push_back("F:" + label(s) + ":" + f + ":" + S(s->function(f).size()));
    for (auto& c : s->scopes()) {
        const Scope* x = s->scope(c);
        if (x->parent() != s) r.push_back("FLAG:parent of " + c);
        dump(x, r);
    }
}

int sidx(const std::string& r) { return r[1] - '0'; }

template<typename T> void addAnyFn(T& to, const std::string& n, const std::string& sig, int k)
{
    static double d;
    static std::string str;
    if (sig == "i()") to.addFunction(n, [k] { return k; });
    else if (sig == "i(i)") to.addFunction(n, [k] (int x) { return k + x; });
    else if (sig == "i(i,i)") to.addFunction(n, [k] (int x, int y) { return k + x + y; });
    else if (sig == "v(cs&)") to.addFunction(n, [] (const std::string&) {});
    else if (sig == "s(s&&,d)") to.addFunction(n, [] (std::string&& s, double) { return std::move(s); });
    else if (sig == "d&(d&,cd&,i)") to.addFunction(n, [] (double& x, const double&, int) -> double& { return x; });
    else if (sig == "cs&()") to.addFunction(n, [] () -> const std::string& { return str; });
    else if (sig == "v(V,i,i,i)") to.addFunction(n, [] (const Value&, int, int, int) {});
    else abort();
}
template<typename T> void addAnyField(T& to, const std::string& n)
{
    size_t at = 4 * (n[0] - 'a');
    if (n == "g") to.template addField<std::string>(n, at);
    else if (n == "h") to.template addField<const double>(n, at);
    else to.template addField<int>(n, at);
}

Strs run(const Cmd& c)
{
    const Strs& a = c.a;
    const std::string& op = c.op;
    auto sc = [&] { return reg[sidx(a[0])]; };
    auto csc = [&] { return (const Scope*) reg[sidx(a[0])]; };
    auto pr = [&] (std::function<std::pair<std::string, std::string>()> f) {
        Strs r(1, "ok");
        try { auto p = f(); r.push_back(p.first); r.push_back(p.second); }
        catch (const reflect::Error&) { return Strs(1, "err"); }
        return r; };
    auto bools = [&] (std::function<bool(const std::string&)> f) {
        Strs r;
        for (size_t i = 1; i < a.size(); ++i) {
            try { r.push_back(f(a[i]) ? "1" : "0"); } catch (const reflect::Error&) { r.push_back("err"); }
        }
        return r; };
    auto setScope = [&] (const std::string& dst, std::function<Scope*()> f) {
        Strs r(1, "ok");
        try { Scope* s = f(); reg[sidx(dst)] = s; r.push_back(label(s)); }
        catch (const reflect::Error&) { r[0] = "err"; }
        return r; };
    auto filter = [&] (std::vector<std::string> l, const std::set<std::string>& base) {
        Strs r;
        for (auto& x : l) if (!inG(sc()) || !base.count(fullId(sc(), x))) r.push_back(x);
        return r; };

    if (op == "head") return pr([&] { return Scope::head(a[0]); });
    if (op == "tail") return pr([&] { return Scope::tail(a[0]); });
    if (op == "join") return Strs(1, Scope::join(a[0], a[1]));
    if (op == "scopeM") return setScope(a[1], [&] { return sc()->scope(a[2]); });
    if (op == "scopeC") return setScope(a[1], [&] { return csc()->scope(a[2]); });
    if (op == "scopeF") return setScope(a[0], [&] { return scope(a[1]); });
    if (op == "sid") {
        Scope* s = sc();
        Strs r;
        r.push_back(label(s));
        r.push_back(s->id());
        r.push_back(s->parent() ? s->name() : "-");
        r.push_back(s->isGlobal() ? "1" : "0");
        r.push_back(s->parent() ? label(s->parent()) : "-");
        return r;
    }
    if (op == "hasScope") return bools([&] (const std::string& n) { return csc()->hasScope(n); });
    if (op == "hasType") return bools([&] (const std::string& n) { return sc()->hasType(n); });
    if (op == "hasFn") return bools([&] (const std::string& n) { return csc()->hasFunction(n); });
    if (op == "addType") return okErr([&] { sc()->addType(a[1]); });
    if (op == "addFn") return okErr([&] {
        Scope* s = sc();
        int k = int(c.n[0]);
        const std::string& n = a[1];
        addAnyFn(*s, n, a[2], k);
    });
    if (op == "fn" || op == "fnM") {
        try { return op == "fn" ? sigs(csc()->function(a[1])) : sigs(sc()->function(a[1])); }
        catch (const reflect::Error&) { return Strs(1, "err"); }
    }
    if (op == "call") {
        Strs r(1, "ok");
        try {
            int x = c.n.size() == 0 ? csc()->call<int>(a[1])
                : c.n.size() == 1 ? csc()->call<int>(a[1], int(c.n[0]))
                : csc()->call<int>(a[1], int(c.n[0]), int(c.n[1]));
            r.push_back(S(x));
        } catch (const reflect::Error&) { r[0] = "err"; }
        return r;
    }
    if (op == "typ") return lookup([&] { return sc()->type(a[1]); });
    if (op == "scopes") return filter(csc()->scopes(), baseScopes);
    if (op == "types") return filter(csc()->types(a[1] == "deep"), baseTypes);
    if (op == "fns") return filter(csc()->functions(a[1] == "deep"), baseFns);
    if (op == "dump") {
        Strs r;
        dump(a[0] == "G" ? Registry::globalScope() : &root, r);
        (a[0] == "G" ? Registry::globalScope() : &root)->print();
        return r;
    }

    if (op == "body") { bodies[a[0]].push_back(Strs(a.begin() + 1, a.end())); return Strs(); }
    if (op == "radd") return okErr([&] { radd(a[0], a[1]); });
    if (op == "raddnone") return okErr([&] { Registry::add(a[0], std::function<void(Type*)>()); });
    if (op == "raddT") return okErr([&] {
        if (a[0] == "T0") Registry::add<nt::T0>();
        else if (a[0] == "T1") Registry::add<nt::T1>();
        else if (a[0] == "T2") Registry::add< tq<nt::T0> >();
        else if (a[0] == "P0") Registry::add<nt::P0>();
        else Registry::add<P1>(); });
    if (op == "ralias") return okErr([&] { Registry::alias(a[0], a[1]); });
    if (op == "raliasT") return okErr([&] {
        if (a[0] == "T0") Registry::alias<nt::T0>(a[1]);
        else if (a[0] == "T1") Registry::alias<nt::T1>(a[1]);
        else if (a[0] == "T2") Registry::alias< tq<nt::T0> >(a[1]);
        else if (a[0] == "P0") Registry::alias<nt::P0>(a[1]);
        else Registry::alias<P1>(a[1]); });
    if (op == "get") return lookup([&] { return c.n.empty() ? type(a[0]) : Registry::get(a[0]); });
    if (op == "getT") return lookup([&] { return getT(a[0]); });

    if (op == "tfn") return okErr([&] {
        Type* t = const_cast<Type*>(type(a[0]));
        int k = int(c.n[0]);
        addAnyFn(*t, a[1], a[2], k);
    });
    if (op == "tfld") return okErr([&] { addAnyField(*const_cast<Type*>(type(a[0])), a[1]); });
    if (op == "tparent") {
        bool cycle = false;
        Strs r = okErr([&] {
            Type* t = const_cast<Type*>(type(a[0]));
            const Type* p = type(a[1]);
            for (const Type* x = p; x; x = x->parent()) cycle = cycle || x == t;
            if (!cycle) t->parent(p);
        });
        if (cycle) r[0] = "cycle";
        return r;
    }
    if (op == "ent") {
        Traits* t = nullptr;
        std::string n;
        Strs r = okErr([&] {
            const std::string& k = a[1];
            std::function<Strs()> pr;
            auto ovl = [&] (const Overloads& o) { const Overloads* p = &o;
                pr = [p] { Strs d = described(p->print()); d.push_back("|name=" + p->name()); return d; }; };
            auto fld = [&] (const Field& f) { const Field* p = &f; pr = [p] { return described(p->print()); }; };
            if (k == "scope") { t = reg[sidx(a[2])]; n = label(reg[sidx(a[2])]);
                const Scope* s = reg[sidx(a[2])]; pr = [s] { return described(s->print(), inG(s)); }; }
            else if (k == "sfn") { Overloads* o = &reg[sidx(a[2])]->function(a[3]); t = o; ovl(*o); }
            else if (k == "sfnc") {
                Overloads* o = const_cast<Overloads*>(&((const Scope*) reg[sidx(a[2])])->function(a[3])); t = o; ovl(*o); }
            else {
                Type* y = const_cast<Type*>(type(a[2]));
                const Type* cy = y;
                if (k == "type") { t = y; pr = [cy] { return described(cy->print()); }; }
                else if (k == "tfn") { Overloads* o = &y->function(a[3]); t = o; ovl(*o); }
                else if (k == "tfnc") { Overloads* o = const_cast<Overloads*>(&cy->function(a[3])); t = o; ovl(*o); }
                else if (k == "fld") { Field* f = &y->field(a[3]); t = f; fld(*f); }
                else { Field* f = const_cast<Field*>(&cy->field(a[3])); t = f; fld(*f); }
            }
            entPrint[sidx(a[0])] = pr;
        });
        if (t) ent[sidx(a[0])] = t;
        return r;
    }
    if (op == "eprint") return entPrint[sidx(a[0])]();
    if (op == "sprint") {
        const Scope* s = csc();
        std::string x = s->print(), y = s->print(int(c.n[0]));
        Strs r = described(x, inG(s));
        if (described(y, inG(s)) != r) r.push_back("FLAG:indented");
        return r;
    }
    if (op == "tprint") {
        const Type* t = nullptr;
        Strs r = okErr([&] { t = type(a[0]); });
        if (!t) return r;
        std::string x = t->print(), y = t->print(c.n[0]);
        Strs d = described(x);
        if (described(y) != d) r.push_back("FLAG:indented");
        r.insert(r.end(), d.begin(), d.end());
        return r;
    }
    if (op == "words") {
        std::stringstream ss;
        ss << Match::None << "," << Match::Partial << "," << Match::Exact << "," << RefType::Copy << "," << RefType::LValue
           << "," << RefType::RValue << "," << printArgument<int>() << "," << printArgument<const int&>() << ","
           << printArgument<std::string&&>() << "," << printArgument(type<double>(), RefType::LValue, false) << ","
           << printArgument<void>() << "," << printArgument<const double>() << "," << printArgument<const Value&>();
        return Strs(1, ss.str());
    }
    Traits* e = a.empty() ? nullptr : ent[sidx(a[0])];
    const Traits* ce = e;
    if (op == "tadd") return okErr([&] {
        if (a[2] == "none") e->addTrait(a[1]);
        else if (a[2] == "int") e->addTrait(a[1], int(atoi(a[3].c_str())));
        else if (a[2] == "str") e->addTrait(a[1], std::string(a[3]));
        else if (a[2] == "bool") e->addTrait(a[1], bool(a[3] == "true"));
        else if (a[2] == "lint") { int* k = cell(atoi(a[3].c_str())); e->addTrait(a[1], *k); }
        else if (a[2] == "clint") { const int* k = cell(atoi(a[3].c_str())); e->addTrait(a[1], *k); }
        else if (a[2] == "ptr") e->addTrait(a[1], cell(atoi(a[3].c_str())));
        else if (a[2] == "nul") e->addTrait(a[1], (int*) nullptr);
        else if (a[2] == "type") e->addTrait(a[1], type(a[3]));
        else if (a[2] == "vec") e->addTrait(a[1], std::vector<int>(2, atoi(a[3].c_str())));
        else if (a[2] == "sp") e->addTrait(a[1], std::make_shared<int>(atoi(a[3].c_str())));
        else e->addTrait(a[1], Value(double(atoi(a[3].c_str()))));
    });
    if (op == "tis") return bools([&] (const std::string& n) { return ce->is(n); });
    if (op == "tlist") return ce->traits();
    if (op == "tget") {
        Strs r(1, "ok");
        try {
            if (a[2] == "int") r.push_back(S(ce->getValue<int>(a[1])));
            else if (a[2] == "str") r.push_back(ce->getValue<std::string>(a[1]));
            else if (a[2] == "bool") r.push_back(ce->getValue<bool>(a[1]) ? "true" : "false");
            else if (a[2] == "ptr") { int* k = ce->getValue<int*>(a[1]); r.push_back(k ? S(*k) : "null"); }
            else if (a[2] == "type") r.push_back(ce->getValue<const Type*>(a[1])->id());
            else if (a[2] == "vec") { const std::vector<int>& k = ce->getValue<const std::vector<int>&>(a[1]);
                                      r.push_back(k.size() == 2 && k[0] == k[1] ? S(k[0]) : "?"); }
            else if (a[2] == "sp") r.push_back(S(*ce->getValue< std::shared_ptr<int> >(a[1])));
            else if (a[2] == "val") { Value v = ce->getValue<Value>(a[1]); r.push_back(v.isVoid() ? "void" : v.typeId()); }
            else r.push_back(S(long(ce->getValue<double>(a[1]))));
        } catch (const reflect::Error&) { r.assign(1, "err"); }
        return r;
    }
    fprintf(stderr, "unknown op %s\n", op.c_str());
    abort();
}

void base(const Scope* s)
{
    if (s->parent()) baseScopes.insert(s->id());
    for (auto& t : s->types()) baseTypes.insert(fullId(s, t));
    for (auto& t : s->functions()) baseFns.insert(fullId(s, t));
    for (auto& t : s->scopes()) base(s->scope(t));
}

int main(int argc, char** argv)
{
    Argument::make<int>(); Argument::make<std::string>(); Argument::make<double>(); Argument::make<bool>();
    Argument::make<int*>(); Argument::make<const Type*>(); Argument::make< std::vector<int> >();
    Argument::make< std::shared_ptr<int> >(); Argument::make<Value>();
    base(Registry::globalScope());
    reg[0] = Registry::globalScope();
    reg[1] = &root;
    return hx::main(argc, argv, run);
}
