// Declaration macros and operators harness: the generated classes through the library (spec/Decl.tla).
#include "decl_gen.h"

using namespace reflect;
using hx::Strs; using hx::Cmd; using hx::S;

int Cell::live = 0;
static std::map<std::string, ClassInfo>& table() { static std::map<std::string, ClassInfo> t; return t; }
bool classes(std::vector<ClassInfo> l)
{
    for (auto& c : l) table()[c.name] = c;
    return true;
}

struct Var { std::string type; void* at; std::function<Value()> ref; };
static std::map<std::string, Var>& vars() { static std::map<std::string, Var> t; return t; }
bool variable(const std::string& name, const std::string& type, void* at, std::function<Value()> ref)
{
    vars()[name] = Var{ type, at, ref };
    return true;
}

static std::map<std::string, Value> V;
static int base = 0;        // how many of the objects are the globals
static int ints[4];

std::string show(const std::string& type, Cell* c)
{
    return S(c->n) + "/" + c->how + (table()[type].zero(c) ? "/garbage" : "");
}
std::string content(const Value& v)
{
    if (v.typeId() == "int") return S(*static_cast<int*>(v.value()));
    if (v.typeId() == "bool") return S(*static_cast<bool*>(v.value()));
    if (!table().count(v.typeId())) return "?" + v.typeId();
    return show(v.typeId(), static_cast<Cell*>(v.value()));
}
std::string desc(const Value& v)
{
    if (v.isVoid()) return "void";
    return sg::argStr(v.argument()) + (v.isStored() ? "|s|" : "|-|") + content(v);
}

// Calls f with the arguments that are written in the command.
template<typename F, typename... Done>
typename std::enable_if<sizeof...(Done) == 3>::type
apply(F& f, const Strs& xs, size_t i, const std::vector<long>&, Done&&... done)
{
    if (i < xs.size()) abort();
    f(std::forward<Done>(done)...);
}
template<typename F, typename... Done>
typename std::enable_if<sizeof...(Done) < 3>::type
apply(F& f, const Strs& xs, size_t i, const std::vector<long>& n, Done&&... done)
{
    if (i == xs.size()) { f(std::forward<Done>(done)...); return; }
    size_t k = sizeof...(Done);
    const std::string& x = xs[i];
    if (x == "i" || x == "c" || x == "r") ints[k] = n.at(k);
    if (x == "i") apply(f, xs, i + 1, n, std::forward<Done>(done)..., ints[k]);
    else if (x == "c") apply(f, xs, i + 1, n, std::forward<Done>(done)..., (const int&) ints[k]);
    else if (x == "r") apply(f, xs, i + 1, n, std::forward<Done>(done)..., int(ints[k]));
    else apply(f, xs, i + 1, n, std::forward<Done>(done)..., V[x]);
}

struct New
{
    const Type* t; Value r;
    template<typename... A> void operator()(A&&... a) { r = t->construct(std::forward<A>(a)...); }
};
struct Alloc
{
    const Type* t; Value r;
    template<typename... A> void operator()(A&&... a)
    {
        r = sizeof...(A) ? t->call<Value>("new", std::forward<A>(a)...) : t->alloc();
    }
};
struct Static
{
    const Type* t; std::string fn; Value r;
    template<typename... A> void operator()(A&&... a) { r = t->call<Value>(fn, std::forward<A>(a)...); }
};
struct Global
{
    std::string scope, fn; Value r;
    template<typename... A> void operator()(A&&... a)
    {
        const Scope* g = Registry::globalScope();
        if (!scope.empty()) g = g->scope(scope);
        r = g->call<Value>(fn, std::forward<A>(a)...);
    }
};
struct Paren
{
    const Value& v; Value r;
    template<typename... A> void operator()(A&&... a) { r = v(std::forward<A>(a)...); }
};
Strs left(Strs r, const Strs& xs, size_t from)
{
    for (size_t i = from; i < xs.size(); ++i)
        if (xs[i] == "i") r.push_back("x=" + S(ints[i - from]));
    return r;
}
// &v or ^v: the very object v refers to, as T& or const T&
template<typename F, typename M> bool typed(F& f, M m, const Strs& xs, size_t from)
{
    if (xs.size() <= from || (xs[from][0] != '&' && xs[from][0] != '^')) return false;
    const Value& v = V[xs[from].substr(1)];
    (table().at(v.typeId()).*m)(f, v.value(), xs[from][0] == '^');
    return true;
}
bool typed(Call& f, const Strs& xs, size_t from) { return typed(f, &ClassInfo::call, xs, from); }
bool typed(Binary& f, const Strs& xs, size_t from) { return typed(f, &ClassInfo::binary, xs, from); }
bool typed(Bool& f, const Strs& xs, size_t from) { return typed(f, &ClassInfo::truth, xs, from); }
bool typed(Assign& f, const Strs& xs, size_t from) { return typed(f, &ClassInfo::assign, xs, from); }
template<typename F> bool typed(F&, const Strs&, size_t) { return false; }
template<typename F> Strs give(F f, const Cmd& c, size_t from)
{
    if (!typed(f, c.a, from)) apply(f, c.a, from, c.n);
    if (!f.r.isVoid() && f.r.type()->isPointer()) f.r = Value(*f.r);      // what is allocated stays
    V[c.a[0]] = std::move(f.r);
    return left(Strs{ "ok", desc(V[c.a[0]]) }, c.a, from);
}
Strs keep(const std::string& r, Value v) { V[r] = v; return Strs(1, desc(V[r])); }
Strs made(const std::string& r, Value v) { V[r] = v; return Strs{ "ok", desc(V[r]) }; }
Strs truth(bool b) { return Strs(1, b ? "1" : "0"); }

template<typename T> std::string trait(const T& x, const std::string& n)
{
    try { return n + "=" + S(x.template getValue<int>(n)); }
    catch (const reflect::Error&) { return n; }
}
Strs info(const Type* t)
{
    Strs r = { "id=" + t->id(), "parent=" + (t->parent() ? t->parent()->id() : std::string()),
        std::string("copiable=") + (t->isCopiable() ? "y" : "n"), std::string("movable=") + (t->isMovable() ? "y" : "n"),
        std::string("pointer=") + (t->isPointer() ? "y" : "n") };
    for (auto& x : t->traits()) {
        if (x != "sizeof") r.push_back("trait:" + trait(*t, x));
        else r.push_back(t->getValue<size_t>(x) == table()[t->id()].size ? "trait:sizeof=ok" : "trait:sizeof=wrong");
    }
    for (auto& f : t->fields()) {
        r.push_back("field:" + f + "=" + sg::argStr(t->field(f).argument()));
        for (auto& x : t->field(f).traits()) r.push_back("field:" + f + ":" + trait(t->field(f), x));
    }
    for (auto& f : t->functions())
        for (auto& x : t->function(f).traits()) r.push_back("fn:" + f + ":" + trait(t->function(f), x));
    for (auto& x : sg::ownSigs(t)) r.push_back(x);
    return r;
}

Strs scopeInfo(const std::string& name)
{
    const Scope* g = Registry::globalScope();
    const Scope* s = g->scope(name);
    Strs r = { "id=" + s->id() };
    for (auto& x : s->traits()) r.push_back("trait:" + trait(*s, x));
    for (auto& x : s->scopes()) r.push_back("scope:" + x);
    for (auto& f : s->functions()) {
        const Overloads& o = s->function(f);
        if (&o != &g->function(name + "::" + f)) r.push_back("elsewhere:" + f);
        if (!s->hasFunction(f) || !g->hasFunction(name + "::" + f)) r.push_back("unseen:" + f);
        for (size_t i = 0; i < o.size(); ++i) r.push_back(sg::sigStr(o[i]));
    }
    return r;
}

Strs run_(const Cmd& c)
{
    const Strs& a = c.a;
    const std::string& op = c.op;
    if (op == "ref" || op == "cref") return keep(a[0], table().at(a[1]).global(c.n[0], op == "cref"));
    if (op == "lit") return keep(a[0], Value(int(c.n[0])));
    if (op == "drop") { V[a[0]] = Value(); return Strs(1, "ok"); }
    if (op == "set") return keep(a[0], V[a[1]]);
    if (op == "rval") return keep(a[0], V[a[1]].rvalue());
    if (op == "const") return keep(a[0], V[a[1]].toConst());
    if (op == "copy") return made(a[0], V[a[1]].copy());
    if (op == "move") return made(a[0], V[a[1]].move());
    if (op == "new") return give(New{ type(a[1]), Value() }, c, 2);
    if (op == "alloc") return give(Alloc{ type(a[1]), Value() }, c, 2);
    if (op == "static") return give(Static{ type(a[1]), a[2], Value() }, c, 3);
    if (op == "global") return give(Global{ a[1], a[2], Value() }, c, 3);
    if (op == "call") return give(Call{ V[a[1]], a[2], Value() }, c, 3);
    if (op == "bin") {
        if (a[2] == "operator()") return give(Paren{ V[a[1]], Value() }, c, 3);
        return give(Binary{ V[a[1]], a[2], Value() }, c, 3);
    }
    if (op == "un") {
        const Value& v = V[a[1]];
        if (a[2] == "operator++") return made(a[0], ++v);
        if (a[2] == "operator--") return made(a[0], --v);
        if (a[2] == "operator~") return made(a[0], ~v);
        if (a[2] == "operator*") return made(a[0], *v);
        abort();
    }
    if (op == "post") {
        const Value& v = V[a[1]];
        return made(a[0], a[2] == "operator++" ? v++ : v--);
    }
    if (op == "bool") {
        Bool f{ V[a[0]], a[1], false };
        if (!typed(f, a, 2)) apply(f, a, 2, c.n);
        return left(truth(f.r), a, 2);
    }
    if (op == "not") return truth(!V[a[0]]);
    if (op == "truth") return truth(bool(V[a[0]]));
    if (op == "assign") {
        Assign f{ V[a[0]] };
        if (!typed(f, a, 1)) apply(f, a, 1, c.n);
        return left(Strs(1, "ok"), a, 1);
    }
    if (op == "fld") return keep(a[0], V[a[1]].field(a[2]));
    if (op == "write") { cast<int&>(V[a[0]]) = c.n[0]; return Strs(1, "ok"); }
    if (op == "same") return truth(V[a[0]].value() == V[a[1]].value());
    if (op == "show") return Strs(1, desc(V[a[0]]));
    if (op == "peek") { return Strs(1, show(a[0], table().at(a[0]).cell(c.n[0]))); }
    if (op == "vref") return keep(a[0], vars().at(a[1]).ref());
    if (op == "var") {
        const Var& x = vars().at(a[0]);
        return Strs(1, x.type == "int" ? S(*static_cast<int*>(x.at)) : show(x.type, static_cast<Cell*>(x.at)));
    }
    if (op == "info") return info(type(a[0]));
    if (op == "scope") return scopeInfo(a[0]);
    abort();
}
Strs run(const Cmd& c)
{
    Strs r;
    try { r = run_(c); } catch (const reflect::Error&) { r = Strs(1, "err"); }
    if (c.op != "info" && c.op != "scope") r.push_back(S(Cell::live - base));
    return r;
}
int main(int argc, char** argv)
{
    for (auto& c : table()) {
        c.second.cell(0);
        try { c.second.type(); } catch (const reflect::Error&) {}   // seen again when it's used
    }
    base = Cell::live;
    return hx::main(argc, argv, run);
}
