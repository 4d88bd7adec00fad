// Errors harness: misuse, its reports and what is left afterwards (spec/Errors.tla).
// Names are symbols in the scripts; the first command gives each its real length.
#include "sigs.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include <memory>
#include <regex>

using namespace reflect;
using hx::Strs; using hx::Cmd; using hx::S;

static std::map<std::string, std::string> names;      // symbol -> real name
static std::string real(const std::string& sym) { auto it = names.find(sym); return it == names.end() ? sym : it->second; }
static std::string join(const Strs& l, size_t from = 0)
{
    std::string r;
    for (size_t i = from; i < l.size(); ++i) r += (i > from ? "::" : "") + real(l[i]);
    return r;
}

// finds the names in a text; tmpl is the text without them
static Strs tokens(const std::string& s, std::string& tmpl, bool keep)
{
    Strs r;
    tmpl.clear();
    for (size_t i = 0; i < s.size();) {
        bool found = false;
        for (auto& n : names)
            if (s.compare(i, n.second.size(), n.second) == 0) {
                r.push_back(n.first);
                tmpl += keep ? n.first : "{}";
                i += n.second.size();
                found = true;
                break;
            }
        if (!found) tmpl += s[i++];
    }
    for (size_t i = 0; i + 1 < tmpl.size(); ++i)
        if (!keep && (tmpl.compare(i, 2, "%s") == 0 || tmpl.compare(i, 2, "_x") == 0)) { r.push_back("CUT"); break; }
    return r;
}
static std::string show(const std::string& s) { std::string t; tokens(s, t, true); return t; }

static long runs = 0;
struct A { long n; A() : n(0) {} A(const A& o) : n(o.n) {} A(A&& o) : n(o.n) { o.n = -1; }
    A& operator=(const A& o) { n = o.n; return *this; } A& operator=(A&& o) { n = o.n; o.n = -1; return *this; } };
struct B : A { B() {} B(const B& o) : A(o) {} B(B&& o) : A(std::move(o)) {}
    B& operator=(const B& o) { n = o.n; return *this; } B& operator=(B&& o) { n = o.n; o.n = -1; return *this; } };
struct C { long n; C() : n(0) {} C(long n) : n(n) {} C(const C&) = delete; C(C&& o) : n(o.n) { o.n = -1; }
    C& operator=(C&& o) { n = o.n; o.n = -1; return *this; } };
struct D { long n; D() : n(0) {} D(const D&) = delete; D& operator=(const D&) = delete; };
static A* oA; static B* oB; static C* oC; static D* oD;
static Type* types[4];

namespace reflect {
#define CLASS(T, i, more)                                               \
    template<> struct Reflect< T > {                                    \
        typedef T T_;                                                   \
        static std::string id() { return real(#T); }                    \
        static void reflect(Type* type_) { types[i] = type_; reflectPlumbing(); more; } \
        reflectTemplateLoader()                                         \
    };
CLASS(A, 0, )
CLASS(B, 1, type_->parent(type<A>()))
CLASS(C, 2, )
CLASS(D, 3, )
}

static Type* cls(const std::string& t) { return types[t[0] - 'A']; }

template<typename Fn> void withSig(const std::string& s, long k, Fn f)
{
    if (s == "s0") f([k] () -> int { runs++; return k; });
    else if (s == "s1") f([k] (A& a) -> int { runs++; a.n++; return k; });
    else if (s == "s2") f([k] (const A& a) -> int { runs++; return k; });
    else if (s == "s3") f([k] (B& b) -> int { runs++; b.n++; return k; });
    else if (s == "s4") f([k] (A a) -> int { runs++; return k; });
    else if (s == "s5") f([k] (C&& c) -> int { runs++; C x(std::move(c)); return k; });
    else if (s == "s6") f([k] (int, int) -> int { runs++; return k; });
    else if (s == "s7") f([k] (int) -> C { runs++; return C(k); });
    else if (s == "s8") f([k] (C c) -> int { runs++; return k; });
    else if (s == "s9") f([k] (A&& a, C c) -> int { runs++; return k; });
    else if (s == "s10") f([k] (D& d, C&& c) -> int { runs++; C x(std::move(c)); return k; });
    else abort();
}
struct GetSig
{
    const Overloads* o; const Function** r;
    template<typename Fn> void operator() (Fn fn)
    {
        Function f("?", fn);
        std::vector<Argument> args;
        for (size_t i = 0; i < f.arguments(); ++i) args.push_back(f.argument(i));
        *r = &o->get(f.returnType(), args);
    }
};
struct AddT { Type* t; std::string n; template<typename Fn> void operator() (Fn f) { t->addFunction(n, std::move(f)); } };
struct AddS { Scope* s; std::string n; template<typename Fn> void operator() (Fn f) { s->addFunction(n, std::move(f)); } };

// calls with typed arguments
template<typename Ret> struct Caller
{
    const Overloads* o; const Function* f;
    template<typename T> std::string give(T&& v) { return S(v); }
    template<typename... As> std::string go(As&&... as)
    { return show1(o ? o->call<Ret>(std::forward<As>(as)...) : f->call<Ret>(std::forward<As>(as)...)); }
    static std::string show1(long v) { return S(v); }
    static std::string show1(const A& v) { return S(v.n); }
    static std::string show1(const C& v) { return S(v.n); }
    static std::string show1(const std::string& v) { return v; }
};
template<> struct Caller<void>
{
    const Overloads* o; const Function* f;
    template<typename... As> std::string go(As&&... as)
    { if (o) o->call<void>(std::forward<As>(as)...); else f->call<void>(std::forward<As>(as)...); return "void"; }
};
template<typename K, typename... As> std::string arg2(K& k, const std::string& f, As&&... as)
{
    if (f == "int") return k.go(std::forward<As>(as)..., int(3));
    if (f == "A&") return k.go(std::forward<As>(as)..., *oA);
    if (f == "C&&") return k.go(std::forward<As>(as)..., std::move(*oC));
    if (f == "C&") return k.go(std::forward<As>(as)..., *oC);
    abort();
}
template<typename K> std::string callForms(K k, const Strs& f)
{
    if (f.empty()) return k.go();
    if (f.size() == 1) {
        const A& ca = *oA;
        if (f[0] == "cA&") return k.go(ca);
        if (f[0] == "B&") return k.go(*oB);
        if (f[0] == "D&") return k.go(*oD);
        if (f[0] == "A&&") return k.go(std::move(*oA));
        if (f[0] == "str") return k.go(std::string("s"));
        return arg2(k, f[0]);
    }
    if (f[0] == "int") return arg2(k, f[1], int(4));
    if (f[0] == "A&&") return arg2(k, f[1], std::move(*oA));
    if (f[0] == "D&") return arg2(k, f[1], *oD);
    abort();
}
static std::string callAs(const std::string& w, const Overloads* o, const Function* f, const Strs& forms)
{
    if (w == "void") return callForms(Caller<void>{o, f}, forms);
    if (w == "int") return callForms(Caller<int>{o, f}, forms);
    if (w == "A") return callForms(Caller<A>{o, f}, forms);
    if (w == "C") return callForms(Caller<C>{o, f}, forms);
    if (w == "std::string") return callForms(Caller<std::string>{o, f}, forms);
    abort();
}

static Value vals[3];
static Value& val(const std::string& v) { return vals[v[1] - '0']; }
static Strs ok(const std::string& x) { return Strs{"ok", x}; }
static std::string idOf(const Type* t) { return show(t->id()); }

static std::string argOf(const Argument& a) { return show(sg::argStr(a)); }
static std::string sigAs(const std::string& name, const Function& f)
{
    std::string s = name + ":" + argOf(f.returnType()) + "(";
    for (size_t i = 0; i < f.arguments(); ++i) s += (i ? "," : "") + argOf(f.argument(i));
    return s + ")";
}
static bool isSym(const std::string& s) { return s.size() == 1 && s[0] >= 'a' && s[0] <= 'f'; }
static void dumpTraits(const std::string& e, const Traits& t, Strs& r)
{
    for (auto& n : t.traits()) if (isSym(show(n))) r.push_back("tr:" + e + ":" + show(n) + "=" + S(t.getValue<int>(n)));
}
static void dumpScope(const Scope* s, const std::string& p, Strs& r)
{
    r.push_back("sc:" + p);
    auto at = [&] (const std::string& n) { return p.empty() ? n : p + "::" + n; };
    for (auto& t : s->types()) if (isSym(show(t))) r.push_back("sct:" + at(show(t)));
    for (auto& n : s->functions()) {
        const Overloads& o = s->function(n);
        if (isSym(show(n))) for (size_t i = 0; i < o.size(); ++i) r.push_back("scf:" + p + ":" + sigAs(show(n), o[i]));
    }
    for (auto& n : s->scopes()) if (isSym(show(n))) dumpScope(s->scope(n), at(show(n)), r);
}
static Strs dump()
{
    Strs r;
    for (std::string t : {"A", "B", "C", "D"}) {
        Type* x = cls(t);
        for (auto& n : x->functions()) {
            if (!isSym(show(n)) || (x->parent() && x->parent()->hasFunction(n) && &x->parent()->function(n) == &((const Type*) x)->function(n))) continue;
            Overloads& o = x->function(n);
            for (size_t i = 0; i < o.size(); ++i) r.push_back("fn:" + t + ":" + sigAs(show(n), o[i]));
            dumpTraits("fn/" + t + "/" + show(n), o, r);
        }
        for (auto& n : x->fields()) {
            if (!isSym(show(n)) || (x->parent() && x->parent()->hasField(n) && &x->parent()->field(n) == &((const Type*) x)->field(n))) continue;
            r.push_back("fld:" + t + ":" + show(n));
            dumpTraits("fld/" + t + "/" + show(n), x->field(n), r);
        }
        dumpTraits("type/" + t, *x, r);
    }
    dumpTraits("scope", *Registry::globalScope(), r);
    dumpScope(Registry::globalScope(), "", r);
    r.push_back("obj:oA=" + S(oA->n)); r.push_back("obj:oB=" + S(oB->n));
    r.push_back("obj:oC=" + S(oC->n)); r.push_back("obj:oD=" + S(oD->n));
    for (int i = 0; i < 3; ++i) {
        Value& v = vals[i];
        std::string s = "val:v" + S(i) + "=";
        if (v.isVoid()) s += "void";
        else {
            void* p = v.value();
            std::string o = p == oA ? "oA" : p == oB ? "oB" : p == oC ? "oC" : p == oD ? "oD" : "?";
            long n = *(long*) p;     // every class starts with its number
            s += idOf(v.type()) + "." + (v.isConst() ? "c" : "n") + "." + (v.isStored() ? "own" : o) + "." + S(n);
            if (v.refType() != RefType::LValue) s += "!";
        }
        r.push_back(s);
    }
    r.push_back("runs=" + S(runs));
    return r;
}
// everything that can be seen, in no particular order
static std::string snapshot()
{
    std::multiset<std::string> l;
    Strs d = dump();
    l.insert(d.begin(), d.end());
    std::stringstream ss;
    for (int i = 0; i < 4; ++i) ss << types[i]->print() << "\n";
    ss << Registry::globalScope()->print();
    for (std::string s; std::getline(ss, s);) l.insert(s);
    std::string r;
    for (auto& s : l) r += s + "\n";
    return r;
}

static std::string userArg(long n) { std::string s; for (long i = 0; i < n; ++i) s += "ab%sde%n,"[i % 9]; return s; }
static std::string userWant(const std::string& f, long n)
{
    std::string s = userArg(n);
    return f == "plain" ? std::string(n, 'p') : f == "s" ? "<" + s + ">" : f == "ss" ? "<" + s + "> and <" + s + ">"
        : f == "sd" ? s + " is " + S(n) : f == "none" ? "plain error" : f == "lu" ? S(n) + ":" + s
        : f == "cs" ? "c: " + s : "[" + s + "]";
}
// gives the format to a function which takes the format and its arguments
#define FORMATS(f, n, call)                                             \
    do {                                                                \
        std::string s = userArg(n), p(n, 'p');                          \
        if (f == "plain") call(p.c_str());                              \
        else if (f == "s") call("<%s>", s);                             \
        else if (f == "ss") { const std::string k_ = s; call("<%s> and <%s>", k_, userArg(n)); } \
        else if (f == "sd") call("%s is %d", s, int(n));                \
        else if (f == "none") call("plain error");                      \
        else if (f == "lu") call("%lu:%s", (unsigned long) n, s);       \
        else if (f == "cs") call("%c: %s", 'c', s);                     \
        else call("[%s]", s.c_str());                                   \
    } while (false)

static Strs exec(const Cmd& c);
static Traits* entity(const Strs& a)
{
    if (a[1] == "type") return cls(a[2]);
    if (a[1] == "scope") return Registry::globalScope();
    if (a[1] == "fn") return &cls(a[2])->function(real(a[3]));
    return &cls(a[2])->field(real(a[3]));
}
template<typename T> static long castTo(Value v) { return cast<T>(v).n; }

static Strs exec(const Cmd& c)
{
    const Strs& a = c.a;
    const std::string& op = c.op;
    Scope* G = Registry::globalScope();
    const Scope* cG = G;
    Strs O(1, "ok");
    auto R = [&] (size_t i) { return real(a[i]); };

    if (op == "user") { FORMATS(a[0], c.n[0], reflectError); abort(); }
    if (op == "fmt") {
        std::string r;
#define SAVE(...) r = errorFormat(__VA_ARGS__)
        FORMATS(a[0], c.n[0], SAVE);
        return Strs{S(r.size()), r == userWant(a[0], c.n[0]) ? "full" : "other"};
    }
    if (op == "alias") { Registry::alias(R(0), R(1)); return O; }
    if (op == "loader") { Registry::add(join(a), [] (Type*) {}); return O; }
    if (op == "noloader") { Registry::add(R(0), std::function<void(Type*)>()); return O; }
    if (op == "addempty") { Registry::add("", [] (Type*) {}); return O; }
    if (op == "type") return ok(idOf(type(join(a))));
    if (op == "setptr") { const_cast<Type*>(type(R(0)))->setPointer(R(1), cls(a[2])); return O; }
    if (op == "ptr") return ok(show(type(R(0))->pointer()));
    if (op == "pte") return ok(idOf(type(R(0))->pointee()));

    if (op == "smk") { G->scope(join(a)); return O; }
    if (op == "sget") return ok(show(cG->scope(join(a))->id()));
    if (op == "stype") { G->addType(join(a)); return O; }
    if (op == "sfn") { withSig(a[0], c.n[0], AddS{G, join(a, 1)}); return O; }
    if (op == "sfunc") return ok(S((c.n[0] ? cG->function(join(a)) : G->function(join(a))).size()));
    if (op == "scall") return ok(S(cG->call<int>(join(a))));
    if (op == "styp") return ok(idOf(G->type(join(a))));
    if (op == "bad") {
        std::string n = a[1] == "x:y" ? R(2) + ":" + R(3) : a[1] == "<x" ? "<" + R(2) : R(2) + "::" + R(3) + ":" + R(4);
        if (a[0] == "sget") cG->scope(n);
        else if (a[0] == "smk") G->scope(n);
        else if (a[0] == "stype") G->addType(n);
        else if (a[0] == "sfn") withSig("s1", 1, AddS{G, n});
        else if (a[0] == "sfunc") cG->function(n);
        else if (a[0] == "styp") G->type(n);
        else if (a[0] == "hast") G->hasType(n);
        else if (a[0] == "hass") cG->hasScope(n);
        else if (a[0] == "hasf") cG->hasFunction(n);
        else if (a[0] == "head") Scope::head(n);
        else if (a[0] == "tail") Scope::tail(n);
        else Registry::add(n, [] (Type*) {});
        return O;
    }

    if (op == "tfn") { withSig(a[2], c.n[0], AddT{cls(a[0]), R(1)}); return O; }
    if (op == "tfld") { cls(a[0])->addField<int>(R(1), 0); return O; }
    if (op == "badfld") { cls(a[0])->addField<int&>(R(1), 0); return O; }
    if (op == "fnget") return ok(S(cls(a[0])->function(R(1)).size()));
    if (op == "fncget") return ok(S(((const Type*) cls(a[0]))->function(R(1)).size()));
    if (op == "fldget") return ok(show(cls(a[0])->field(R(1)).name()));
    if (op == "fldcget") return ok(show(((const Type*) cls(a[0]))->field(R(1)).name()));
    if (op == "ovget") {
        const Overloads& o = cls(a[0])->function(R(1));
        const Function* f = nullptr;
        withSig(a[2], 0, GetSig{&o, &f});
        return ok(S(f - &o[0] + 1));
    }
    if (op == "call") {
        const Overloads& o = ((const Type*) cls(a[0]))->function(R(1));
        return ok(callAs(a[2], &o, nullptr, Strs(a.begin() + 3, a.end())));
    }
    if (op == "fcall") {
        const Overloads& o = cls(a[0])->function(R(1));
        return ok(callAs(a[2], nullptr, &o[0], Strs(a.begin() + 3, a.end())));
    }
    if (op == "trait") { entity(a)->addTrait(R(0), int(c.n[0])); return O; }
    if (op == "tval") return ok(S(entity(a)->getValue<int>(R(0))));
    if (op == "tbad") { entity(a)->getValue<A>(R(0)); return O; }

    Value& v = val(a[0]);
    if (op == "vnew") {
        if (a[1] == "A") { A x; x.n = c.n[0]; v = Value(std::move(x)); }
        else if (a[1] == "B") { B x; x.n = c.n[0]; v = Value(std::move(x)); }
        else if (a[1] == "C") { v = Value(C(c.n[0])); }
        else { D x; v = Value(std::move(x)); }
        return O;
    }
    if (op == "vref") { v = a[1] == "A" ? Value(*oA) : a[1] == "B" ? Value(*oB) : a[1] == "C" ? Value(*oC) : Value(*oD); return O; }
    if (op == "vcref") {
        const A& ca = *oA; const B& cb = *oB; const C& cc = *oC; const D& cd = *oD;
        v = a[1] == "A" ? Value(ca) : a[1] == "B" ? Value(cb) : a[1] == "C" ? Value(cc) : Value(cd);
        return O;
    }
    if (op == "vdef") { v = cls(a[1])->construct(); return O; }
    if (op == "vcopy") { v = val(a[1]).copy(); return O; }
    if (op == "vmove") { Value t = val(a[1]).move(); v = std::move(t); return O; }
    const Value& cv = v;
    if (op == "vget") return ok(a[1] == "A" ? S(cv.get<A>().n) : a[1] == "B" ? S(cv.get<B>().n) : a[1] == "C" ? S(cv.get<C>().n)
                                : a[1] == "D" ? S(cv.get<D>().n) : S(cv.get<int>()));
    if (op == "vas") return ok(a[1] == "A" ? S(v.as<A>().n) : a[1] == "B" ? S(v.as<B>().n) : a[1] == "C" ? S(v.as<C>().n)
                               : a[1] == "D" ? S(v.as<D>().n) : S(v.as<int>()));
    if (op == "vcast") {
        const std::string& t = a[1];
        return ok(S(t == "A" ? castTo<A>(v) : t == "A&" ? castTo<A&>(v) : t == "const A&" ? castTo<const A&>(v)
                    : t == "B&" ? castTo<B&>(v) : t == "C" ? castTo<C>(v) : t == "C&&" ? castTo<C&&>(v)
                    : t == "A&&" ? castTo<A&&>(v) : t == "D&" ? castTo<D&>(v) : long(cast<int>(Value(v)))));
    }
    if (op == "vconv") { cv.convert<Value>(cls(a[1])); return O; }
    if (op == "vbool") { bool b = (bool) cv; return b ? O : O; }
    if (op == "vassign") { cv.assign(int(3)); return O; }
    if (op == "vfld") return ok(S(cv.field<int>(R(1))));
    if (op == "vfldbad") { cv.field<A&>(R(1)); return O; }
    if (op == "vcall") return ok(S(cv.call<int>(R(1))));
    fprintf(stderr, "unknown op %s\n", op.c_str());
    abort();
}

// file:line: in front of the message, where something really reports an error
static std::string location(std::string& msg)
{
    std::smatch m;
    std::string head = msg.substr(0, 600);
    static const std::regex re("^([^:\n]+):([0-9]+): ");
    if (!std::regex_search(head, m, re)) return "loc=none";
    std::string file = m[1];
    long line = atol(m[2].str().c_str());
    msg = msg.substr(m[0].length());
    std::string base = file.substr(file.rfind('/') + 1);
    std::ifstream in(file);
    if (!in || base == "error.h" || base == "error.cpp") return "loc=wrong file";
    bool found = false;
    long n = 0;
    for (std::string l; std::getline(in, l);) {
        ++n;
        if (n >= line - 8 && n <= line && l.find("rror") != std::string::npos) found = true;
    }
    return found ? "loc=ok" : "loc=wrong line";
}

static int outFd = -1;
static std::string before;

static void setup(const Cmd& c)
{
    static const char* syms[] = { "a", "b", "c", "d", "e", "f", "A", "B", "C", "D" };
    static const char fill[] = "x%sd%n";
    for (int i = 0; i < 10; ++i) {
        std::string f;
        for (long k = 0; k < c.n[i]; ++k) f += fill[k % 6];
        names[syms[i]] = std::string("N") + syms[i] + "_" + f + "_" + syms[i] + "N";
    }
    oA = new A; oB = new B; oC = new C; oD = new D;
    oA->n = 10; oB->n = 20; oC->n = 30; oD->n = 40;
    type<A>(); type<B>(); type<C>(); type<D>(); type<int>(); type<bool>(); type<std::string>(); type<Value>(); type<void>();
    type<A*>(); type<B*>(); type<C*>(); type<D*>(); type<const A*>(); type<int*>(); type<size_t>(); type<long>();
    char path[] = "/tmp/errors-out-XXXXXX";
    outFd = mkstemp(path);
    unlink(path);
    fflush(stdout);
    dup2(outFd, 1);
}

static Strs refused(const Cmd& c, std::string msg, const std::string& same)
{
    std::string loc = location(msg), tmpl;
    if (c.op == "user") return Strs{"err", loc, same, "user:" + c.a[0] + ":" + S(msg.size()) + (msg == userWant(c.a[0], c.n[0]) ? "" : "!")};
    Strs t = tokens(msg, tmpl, false);
    Strs r{"err", loc, same, tmpl};
    r.insert(r.end(), t.begin(), t.end());
    return r;
}

#if REFLECT_USE_EXCEPTIONS
static Strs run(const Cmd& c)
{
    if (c.op == "names") { setup(c); before = snapshot(); return Strs(1, "ok"); }
    if (c.op == "dump") return dump();
    Strs r;
    std::string msg, flags;
    bool failed = false;
    try { r = exec(c); }
    catch (const reflect::Error& e) { failed = true; msg = e.what(); if (!e) flags += " inactive"; }
    catch (const std::exception& e) { failed = true; flags += std::string(" not an Error: ") + e.what(); }
    fflush(stdout);
    if (lseek(outFd, 0, SEEK_CUR)) { flags += " printed"; lseek(outFd, 0, SEEK_SET); }
    std::string after = snapshot();
    if (failed) {
        if (after != before) flags += " changed";
        r = refused(c, msg, flags.empty() ? "same" : flags);
    }
    else if (!flags.empty()) r.push_back(flags);
    before = std::move(after);
    return r;
}
#else
// a copy of the process tries first
static Strs run(const Cmd& c)
{
    if (c.op == "names") { setup(c); return Strs(1, "ok"); }
    if (c.op == "dump") return dump();
    int fds[2];
    if (pipe(fds)) exit(3);
    pid_t pid = fork();
    if (!pid) {
        dup2(fds[1], 1);
        close(fds[0]); close(fds[1]);
        alarm(15);
        exec(c);
        _exit(0);
    }
    close(fds[1]);
    std::string out;
    char buf[65536];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) out.append(buf, n);
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        Strs r = exec(c);
        if (!out.empty()) r.push_back("printed");
        return r;
    }
    std::string flags;
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) flags += " ended by " + S(st);
    if (out.empty() || out.back() != '\n') flags += " no line";
    else {
        out.pop_back();
        for (size_t i = 0; (i = out.find('\n', i)) != std::string::npos; ++i) {
            std::string next = out.substr(i + 1);      // a second report
            if (location(next) == "loc=ok") { flags += " reported twice"; break; }
        }
    }
    return refused(c, out, flags.empty() ? "same" : flags);
}
#endif

int main(int argc, char** argv) { return hx::main(argc, argv, run, 60); }
