// Core harness: types, functions, overloads, casts, values and callables.
#include "core.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

Track T;
Type* types[NT];
std::map<std::string, Maker> makers;
std::map<std::string, StaticTest> staticTests;
std::map<std::string, StaticGet> staticGets;
std::map<std::string, std::function<Argument()> > argMakers;
std::map<std::string, Caller> callers;
std::vector<Value> V;
enum { NV = 5, NO = 6 };

static U<0>* o0; static U<1>* o1; static U<2>* o2; static U<0>* o3; static U<1>* o4; static U<2>* o5;
template<> U<0>& object<0>(int i) { return i == 0 ? *o0 : *o3; }
template<> U<1>& object<1>(int i) { return i == 1 ? *o1 : *o4; }
template<> U<2>& object<2>(int i) { return i == 2 ? *o2 : *o5; }

static size_t baseLive;

std::string describe(const Value& v)
{
    if (!v.value()) return argName(v.argument()) + "|" + (v.isStored() ? "s" : "-") + "||";
    const void* p = v.value();
    std::string pay = T.live.count(p) ? S(static_cast<const U<0>*>(p)->pay) : std::string("dead");
    return argName(v.argument()) + "|" + (v.isStored() ? "s" : "-") + "|" + T.label(p) + "|" + pay;
}

std::string setReg(int r, Value v)
{
    V[r] = v;
    v = Value();
    if (V[r].isStored()) T.name(V[r].value());
    return describe(V[r]);
}

static std::string fullSig(const Function& f)
{
    std::string s = argName(f.returnType()) + "(";
    for (size_t i = 0; i < f.arguments(); ++i) s += (i ? "," : "") + argName(f.argument(i));
    return s + ")";
}
static std::string key(const std::string& ret, const Strs& args)
{
    std::string s = ret + "(";
    for (size_t i = 0; i < args.size(); ++i) s += (i ? "," : "") + args[i];
    return s + ")";
}
static std::string ovlSig(const Overloads& o)
{
    std::string s;
    for (size_t i = 0; i < o.size(); ++i) s += (i ? ";" : "") + o[i].name() + ":" + fullSig(o[i]);
    return s;
}

static Type* ty(const std::string& s) { return types[s[1] - '0']; }
static const Type* cty(const std::string& s)
{
    if (s[0] == 'U') return types[s[1] - '0'];
    if (s == "void") return reflect::type<void>();
    return reflect::type<Value>();
}
static Argument arg(const std::string& s)
{
    size_t n = s.size();
    RefType r = s[n-3] == 'C' ? RefType::Copy : s[n-3] == 'L' ? RefType::LValue : RefType::RValue;
    return Argument(cty(s.substr(0, n - 4)), r, s[n-1] == 'c');
}
static std::string m(Match x)
{ return x == Match::None ? "N" : x == Match::Partial ? "P" : x == Match::Exact ? "E" : "?"; }

/* converters and constructors */
typedef Function (*Fab)(const std::string&);
static Fab convs[NT][NT], froms[NT][NT];
static Fab ctors[NT][4];

struct ConvFn { Tok tok; };
template<int A, int B> struct Conv : public ConvFn {
    U<B> operator() (const U<A>& x) const { T.check(&x); return U<B>(x.pay + 500); } };
template<int A, int B> struct From : public ConvFn {
    U<A> operator() (const U<B>& x) const { T.check(&x); return U<A>(x.pay + 300); } };
template<int A> struct Def : public ConvFn { U<A> operator() () const { return U<A>(); } };
template<int A> struct Copy : public ConvFn {
    U<A> operator() (const U<A>& x) const { return U<A>(x); } };
template<int A> struct Move : public ConvFn {
    U<A> operator() (U<A>&& x) const { return U<A>(std::move(x)); } };
template<int A> struct Lref : public ConvFn {
    U<A> operator() (U<A>& x) const { return U<A>(x); } };

template<int A, int B> struct Fill {
    static void go() {
        convs[A][B] = [] (const std::string& n) { return Function(n, Conv<A, B>()); };
        froms[A][B] = [] (const std::string& n) { return Function(n, From<A, B>()); };
        Fill<A, B-1>::go();
    }
};
template<int A> struct Fill<A, -1> {
    static void go() {
        ctors[A][0] = [] (const std::string& n) { return Function(n, Def<A>()); };
        ctors[A][1] = [] (const std::string& n) { return Function(n, Copy<A>()); };
        ctors[A][2] = [] (const std::string& n) { return Function(n, Move<A>()); };
        ctors[A][3] = [] (const std::string& n) { return Function(n, Lref<A>()); };
        Fill<A-1, NT-1>::go();
    }
};
template<int B> struct Fill<-1, B> { static void go() {} };

template<typename X> static void mk() { argMakers[Form<X>::id()] = [] { return Argument::make<X>(); }; }
template<typename X> static void mkAll()
{ mk<X>(); mk<X&>(); mk<const X&>(); mk<X&&>(); mk<const X&&>(); mk<const X>(); }

template<int N> static void load()
{
    reflect::Registry::add< U<N> >();
    reflect::type< U<N> >();
    T.labels[&glob<N>()] = "g" + S(N);
    load<N-1>();
}
template<> void load<-1>() {}

static std::map<std::string, Function*> F;
static std::map<std::string, Overloads*> O;
static std::vector< std::vector<Value>* > vecs;
static size_t heapMark;

static void init()
{
    static bool done = false;
    if (done) return;
    done = true;
    Fill<NT-1, NT-1>::go();
    load<NT-1>();
    o0 = new U<0>(10); o1 = new U<1>(11); o2 = new U<2>(12);
    o3 = new U<0>(13); o4 = new U<1>(14); o5 = new U<2>(15);
    T.labels[o0] = "o0"; T.labels[o1] = "o1"; T.labels[o2] = "o2";
    T.labels[o3] = "o3"; T.labels[o4] = "o4"; T.labels[o5] = "o5";
    V.resize(NV);
    baseLive = T.live.size();
    registerPool1(); registerPool2(); registerPool3();
    registerCallers1(); registerCallers2(); registerCallers3();
    mkAll< U<0> >(); mkAll< U<1> >(); mkAll<Value>(); mk<void>();
}

static int reg(const std::string& s) { return s[1] - '0'; }

template<typename X> struct Caster;
template<int N> struct Caster< U<N> > {
    static std::string go(Value& v) { U<N> u = cast< U<N> >(v); return "C:" + T.label(&u) + ":" + S(u.pay); } };
template<int N> struct Caster< U<N>& > {
    static std::string go(Value& v) { U<N>& u = cast< U<N>& >(v); T.check(&u); return "L:" + T.label(&u) + ":" + S(u.pay); } };
template<int N> struct Caster< const U<N>& > {
    static std::string go(Value& v) { const U<N>& u = cast< const U<N>& >(v); T.check(&u); return "K:" + T.label(&u) + ":" + S(u.pay); } };
template<int N> struct Caster< U<N>&& > {
    static std::string go(Value& v) { U<N> u(cast< U<N>&& >(v)); return "R:" + S(u.pay); } };

static std::map<std::string, std::pair<std::function<std::string(Value&)>,
                                       std::function<bool(Value&)> > > casters;
template<typename X> static void addCaster()
{
    casters[Form<X>::id()] = std::make_pair(
            [] (Value& v) { return Caster<X>::go(v); },
            [] (Value& v) { return isCastable<X>(v); });
}
template<int N> static void addCasters()
{ addCaster< U<N> >(); addCaster< U<N>& >(); addCaster< const U<N>& >(); addCaster< U<N>&& >(); }

static std::string getAs(Value& v, int t, bool as)
{
    const void* p = nullptr;
    int pay = 0;
#define X(N) if (t == N) { if (as) { auto& u = v.as< U<N> >(); p = &u; T.check(p); pay = u.pay; } \
                           else { const auto& u = v.get< U<N> >(); p = &u; T.check(p); pay = u.pay; } }
    X(0) X(1) X(2) X(3) X(4) X(5)
#undef X
    return T.label(p) + ":" + S(pay);
}

static Value fresh(int t, int pay)
{
#define X(N) if (t == N) return Value(U<N>(pay));
    X(0) X(1) X(2) X(3) X(4) X(5)
#undef X
    return Value();
}

static Strs run_(const Cmd& c)
{
    const Strs& a = c.a;
    const std::string& op = c.op;
    Strs r;
    auto ok = [&] { r.push_back("ok"); };

    if (op == "parent") { ty(a[0])->parent(a[1] == "-" ? nullptr : ty(a[1])); ok(); }
    else if (op == "ptr") { ty(a[0])->setPointer(a[1], ty(a[2])); ok(); }
    else if (op == "conv") {
        std::string n = "operator " + a[1] + "()";
        ty(a[0])->addFunction(n, convs[a[0][1]-'0'][a[1][1]-'0'](n)); ok();
    }
    else if (op == "ctor") {
        int k = a[1] == "def" ? 0 : a[1] == "copy" ? 1 : a[1] == "move" ? 2 : 3;
        if (a[1] == "from") ty(a[0])->addFunction(a[0], froms[a[0][1]-'0'][a[2][1]-'0'](a[0]));
        else ty(a[0])->addFunction(a[0], ctors[a[0][1]-'0'][k](a[0]));
        ok();
    }
    else if (op == "fn") {
        Strs args(a.begin() + 4, a.end());
        auto it = makers.find(a[2] + " " + key(a[3], args));
        if (it == makers.end()) { r.push_back("nopool"); return r; }
        ty(a[0])->addFunction(a[1], it->second(a[1], c.n[0]));
        ok();
    }
    else if (op == "fld") {
        ty(a[0])->addField(a[1], Field(a[1], arg(a[2]), c.n[0])); ok();
    }

    else if (op == "rel") {
        Strs all = a;
        for (auto& x : all) for (auto& y : all) {
            const Type *p = cty(x), *q = cty(y);
            r.push_back(p->isChildOf(q) ? "1" : "0");
            r.push_back(p->isParentOf(q) ? "1" : "0");
        }
        for (auto& x : all) {
            const Type* p = cty(x);
            r.push_back(p->isChildOf< U<0> >() ? "1" : "0");
            r.push_back(p->isParentOf< U<1> >() ? "1" : "0");
            r.push_back(p->parent() ? p->parent()->id() : "-");
        }
    }
    else if (op == "cnv") {
        for (auto& x : a) for (auto& y : a) {
            const Type *p = cty(x), *q = cty(y);
            r.push_back(p->hasConverter(q) ? "1" : "0");
            try { r.push_back(fullSig(p->converter(q))); }
            catch (const Error&) { r.push_back("err"); }
        }
        for (auto& x : a) r.push_back(cty(x)->hasConverter< U<0> >() ? "1" : "0");
    }
    else if (op == "cm") {
        for (auto& x : a) {
            r.push_back(cty(x)->isCopiable() ? "1" : "0");
            r.push_back(cty(x)->isMovable() ? "1" : "0");
        }
    }
    else if (op == "pq") {
        for (auto& x : a) {
            const Type* p = cty(x);
            r.push_back(p->isPointer() ? "1" : "0");
            try { r.push_back(p->pointer()); } catch (const Error&) { r.push_back("err"); }
            try { r.push_back(p->pointee()->id()); } catch (const Error&) { r.push_back("err"); }
        }
    }
    else if (op == "ns") {
        const Type* t = cty(a[0]);
        Type* mt = ty(a[0]);
        for (auto& n : t->functions()) r.push_back("f:" + n);
        for (auto& n : t->fields()) r.push_back("d:" + n);
        for (size_t i = 1; i < a.size(); ++i) {
            const std::string& n = a[i];
            r.push_back(t->hasFunction(n) ? "1" : "0");
            try { r.push_back(ovlSig(t->function(n))); } catch (const Error&) { r.push_back("err"); }
            try { r.push_back(ovlSig(mt->function(n))); } catch (const Error&) { r.push_back("err"); }
            r.push_back(t->hasField(n) ? "1" : "0");
            auto f = [&] (const Field& x) {
                r.push_back(x.name() + ":" + argName(x.argument()) + ":" + x.type()->id());
                r.push_back(S(long(x.offset()))); };
            try { f(t->field(n)); } catch (const Error&) { r.push_back("err"); }
            try { f(mt->field(n)); } catch (const Error&) { r.push_back("err"); }
        }
    }
    else if (op == "match") {
        std::vector<Argument> all;
        for (auto& x : a) all.push_back(arg(x));
        for (auto& x : all) for (auto& y : all) r.push_back(m(x.isConvertibleTo(y)));
    }
    else if (op == "argq") {
        for (auto& x : a) {
            Argument g = arg(x);
            r.push_back(std::string(g.isVoid() ? "v" : "-") + (g.isConstRef() ? "c" : "-")
                    + (g.isTemporary() ? "t" : "-") + (g.isLValueRef() ? "l" : "-"));
            auto it = argMakers.find(x);
            r.push_back(it == argMakers.end() ? "-" : argName(it->second()));
            for (auto& y : a) r.push_back(g == arg(y) ? "1" : "0");
        }
    }
    else if (op == "combine") {
        Match ms[] = { Match::None, Match::Partial, Match::Exact };
        for (auto x : ms) for (auto y : ms) r.push_back(m(combine(x, y)));
    }
    // test T name i ret args: with run time arguments
    else if (op == "test") {
        const Overloads& o = cty(a[0])->function(a[1]);
        Argument ret = arg(a[2]);
        std::vector<Argument> args;
        for (size_t i = 3; i < a.size(); ++i) args.push_back(arg(a[i]));
        for (size_t i = 0; i < o.size(); ++i) r.push_back(m(o[i].test(ret, args)));
        r.push_back(o.test(ret, args) ? "yes" : "no");
        try {
            const Function& f = o.get(ret, args);
            std::string s = "stray";
            for (size_t i = 0; i < o.size(); ++i) if (&o[i] == &f) s = S(long(i));
            r.push_back(s);
        } catch (const Error&) { r.push_back("err"); }
    }
    else if (op == "stest") {
        const Overloads& o = cty(a[0])->function(a[1]);
        Strs args(a.begin() + 3, a.end());
        std::string k = key(a[2], args);
        if (!staticTests.count(k)) { r.push_back("nopool"); return r; }
        for (size_t i = 0; i < o.size(); ++i) r.push_back(m(staticTests[k](o[i])));
        r.push_back(staticGets.count(k) ? staticGets[k](o) : "-");
    }
    else if (op == "ftest") {
        const Overloads& o = cty(a[0])->function(a[1]);
        const Overloads& p = cty(a[2])->function(a[3]);
        for (size_t i = 0; i < o.size(); ++i) for (size_t j = 0; j < p.size(); ++j)
            r.push_back(m(o[i].test(p[j])));
        for (size_t i = 0; i < o.size(); ++i) r.push_back(p.test(o[i]) ? "yes" : "no");
    }

    else if (op == "call") {
        Where w;
        w.mode = a[0]; w.dst = reg(a[1]); w.idx = c.n[0];
        Strs forms;
        for (size_t i = 5; i < a.size(); i += 2) {
            forms.push_back(a[i]); w.src.push_back(a[i+1][1] - '0'); }
        std::string k = key(a[4], forms);
        if (!callers.count(k)) { r.push_back("nopool"); return r; }
        if (a[0] == "oreg") { w.mode = "ovl"; w.ovl = O[a[2]]; }
        else { w.type = cty(a[2]); w.name = a[3];
               if (w.mode == "fn" || w.mode == "ovl") w.ovl = &w.type->function(a[3]);
               if (w.mode == "fn" && w.idx >= w.ovl->size()) { r.push_back("noidx"); return r; } }
        std::string res = callers[k](w);
        r.push_back("ok"); r.push_back(res);
    }

    else if (op == "vnew") { r.push_back(setReg(reg(a[0]), fresh(a[1][1]-'0', c.n[0]))); }
    else if (op == "vref" || op == "vcref" || op == "vmv" || op == "vcmv") {
        Value v;
        int i = reg(a[1]);
        auto go = [&] (int k, Value l, Value cl) { (void) k; return op == "vref" ? l : cl; };
#define X(N) { U<N>& o = object<N>(i); \
        if (op == "vref") v = Value(o); \
        else if (op == "vcref") { const U<N>& co = o; v = Value(co); } \
        else if (op == "vmv") v = Value(std::move(o)); \
        else { const U<N>& co = o; v = Value(std::move(co)); } }
        if (i % 3 == 0) X(0) else if (i % 3 == 1) X(1) else X(2)
#undef X
        std::string s = setReg(reg(a[0]), v);
        v = Value();
        r.push_back(s);
    }
    else if (op == "vown") {
        int t = a[2][1]-'0'; Value v, &s = V[reg(a[1])];
#define X(N) if (t == N) { if (a[3] == "as") v = Value(s.as< U<N> >()); else v = Value(s.get< U<N> >()); }
        X(0) X(1) X(2) X(3) X(4) X(5)
#undef X
        std::string d = setReg(reg(a[0]), v);
        v = Value();
        r.push_back(d);
    }
    else if (op == "vset") {
        int d = reg(a[0]), s = reg(a[1]);
        if (a[2] == "copyctor") { const Value& k = V[s]; Value t(k); V[d] = t; }
        else if (a[2] == "ncopyctor") { Value t(V[s]); V[d] = t; }
        else if (a[2] == "copyassign") V[d] = V[s];
        else if (a[2] == "castvalue") { Value t = cast<Value>(V[s]); V[d] = t; }
        else if (a[2] == "movector") { Value t(std::move(V[s])); V[s] = Value(); V[d] = std::move(t); }
        else if (a[2] == "moveassign") {
            V[d] = std::move(V[s]); if (d != s) V[s] = Value(); }
        r.push_back(describe(V[d])); r.push_back(describe(V[s]));
    }
    else if (op == "vconst") r.push_back(setReg(reg(a[0]), V[reg(a[1])].toConst()));
    else if (op == "vrval") r.push_back(setReg(reg(a[0]), V[reg(a[1])].rvalue()));
    else if (op == "vcopy") r.push_back(setReg(reg(a[0]), V[reg(a[1])].copy()));
    else if (op == "vmove") {
        std::string s = setReg(reg(a[0]), V[reg(a[1])].move());
        r.push_back(s); r.push_back(describe(V[reg(a[1])]));
    }
    else if (op == "vdrop") { V[reg(a[0])] = Value(); ok(); }
    else if (op == "vall") {
        for (auto& v : V) {
            r.push_back(describe(v));
            r.push_back(std::string(v.isVoid() ? "v" : "-") + (v.isConst() ? "c" : "-")
                    + (v.isStored() ? "s" : "-") + v.typeId());
        }
        for (int i = 0; i < NO; ++i)
            r.push_back(S(i % 3 == 0 ? object<0>(i).pay : i % 3 == 1 ? object<1>(i).pay : object<2>(i).pay));
        r.push_back(S(glob<0>().pay)); r.push_back(S(glob<1>().pay)); r.push_back(S(glob<2>().pay));
    }
    else if (op == "vget") r.push_back(getAs(V[reg(a[0])], a[1][1]-'0', false));
    else if (op == "vas") r.push_back(getAs(V[reg(a[0])], a[1][1]-'0', true));
    else if (op == "vwrite") {
        int t = a[1][1]-'0'; Value& v = V[reg(a[0])];
#define X(N) if (t == N) v.as< U<N> >().pay = c.n[0];
        X(0) X(1) X(2) X(3) X(4) X(5)
#undef X
        ok();
    }
    else if (op == "vcast") {
        auto it = casters.find(a[1]);
        if (it == casters.end()) { r.push_back("nopool"); return r; }
        r.push_back(it->second.first(V[reg(a[0])]));
    }
    else if (op == "visc") {
        for (size_t i = 1; i < a.size(); ++i)
            r.push_back(casters.count(a[i]) ? (casters[a[i]].second(V[reg(a[0])]) ? "1" : "0") : "-");
    }
    else if (op == "vconv") r.push_back(setReg(reg(a[0]), V[reg(a[1])].convert<Value>(cty(a[2]))));
    else if (op == "vcons") r.push_back(setReg(reg(a[0]), cty(a[2])->construct(V[reg(a[1])])));
    else if (op == "vdef") r.push_back(setReg(reg(a[0]), cty(a[1])->construct()));
    else if (op == "vvec") {
        // copies of registers survive the growth of the vector which holds them
        auto* vec = new std::vector<Value>;
        for (int i = 0; i < c.n[0]; ++i) vec->push_back(V[reg(a[0])]);
        vec->insert(vec->begin(), V[reg(a[0])]);
        vec->erase(vec->begin() + 1);
        r.push_back(describe(vec->back())); r.push_back(describe(vec->front()));
        if (a[1] == "keep") vecs.push_back(vec); else delete vec;
    }
    else if (op == "vvecdrop") { for (auto* x : vecs) delete x; vecs.clear(); ok(); }
    else if (op == "oset") {
        int i = reg(a[0]);
        (i % 3 == 0 ? object<0>(i).pay : i % 3 == 1 ? object<1>(i).pay : object<2>(i).pay) = c.n[0]; ok();
    }

    else if (op == "fmk") {
        Strs args(a.begin() + 4, a.end());
        auto it = makers.find(a[2] + " " + key(a[3], args));
        if (it == makers.end()) { r.push_back("nopool"); return r; }
        if (F[a[0]]) { delete F[a[0]]; F[a[0]] = nullptr; }
        F[a[0]] = new Function(it->second(a[1], c.n[0])); ok();
    }
    else if (op == "fmove") {
        Function* n = new Function(std::move(*F[a[1]]));
        delete F[a[1]]; F[a[1]] = nullptr;
        if (F[a[0]]) delete F[a[0]];
        F[a[0]] = n; ok();
    }
    else if (op == "fassign") {
        *F[a[0]] = std::move(*F[a[1]]);
        if (a[0] != a[1]) { delete F[a[1]]; F[a[1]] = nullptr; }
        ok();
    }
    else if (op == "fhollow") {
        Function* n = new Function(std::move(*F[a[1]]));
        *F[a[0]] = std::move(*F[a[1]]);
        delete F[a[1]]; F[a[1]] = n;
        delete F[a[0]]; F[a[0]] = nullptr; ok();
    }
    else if (op == "fswap") { std::swap(*F[a[0]], *F[a[1]]); ok(); }
    else if (op == "fdrop") { delete F[a[0]]; F[a[0]] = nullptr; ok(); }
    else if (op == "fq") { r.push_back(F[a[0]]->name() + ":" + fullSig(*F[a[0]])); }
    else if (op == "fvec") {
        // a list of functions which grows
        std::vector<Function> v;
        v.push_back(std::move(*F[a[0]]));
        for (int i = 0; i < c.n[0]; ++i) v.push_back(makers["fun " + key("void.C.n", Strs())]("x", 50 + i));
        Function back(std::move(v.front()));
        v.clear();
        *F[a[0]] = std::move(back);
        ok();
    }
    else if (op == "fcall") {
        Where w; w.mode = "fn"; w.type = nullptr; w.idx = 0; w.dst = reg(a[1]);
        Overloads one;
        one.add(std::move(*F[a[0]]));
        w.ovl = &one;
        Strs forms;
        for (size_t i = 3; i < a.size(); i += 2) {
            forms.push_back(a[i]); w.src.push_back(a[i+1][1] - '0'); }
        std::string k = key(a[2], forms), res;
        if (!callers.count(k)) { *F[a[0]] = std::move(one[0]); r.push_back("nopool"); return r; }
        try { res = callers[k](w); } catch (...) { *F[a[0]] = std::move(one[0]); throw; }
        *F[a[0]] = std::move(one[0]);
        r.push_back("ok"); r.push_back(res);
    }
    else if (op == "oadd") {
        if (!O[a[0]]) O[a[0]] = new Overloads;
        Function f(std::move(*F[a[1]]));
        delete F[a[1]]; F[a[1]] = nullptr;
        O[a[0]]->add(std::move(f)); ok();
    }
    else if (op == "omove") {
        if (!O[a[0]]) O[a[0]] = new Overloads;
        *O[a[0]] = std::move(*O[a[1]]);
        delete O[a[1]]; O[a[1]] = nullptr; ok();
    }
    else if (op == "odrop") { delete O[a[0]]; O[a[0]] = nullptr; ok(); }
    else if (op == "oq") { r.push_back(S(O[a[0]] ? long(O[a[0]]->size()) : 0));
                           r.push_back(O[a[0]] ? ovlSig(*O[a[0]]) : ""); }
    else if (op == "heap") {
        // bytes kept by making, moving and dropping functions n times
        size_t before = 0;
        for (int k = 0; k < 2; ++k) {
            if (k) before = __sanitizer_get_current_allocated_bytes();
            for (int i = 0; i < c.n[0]; ++i) {
                Function f = makers["fun " + key("void.C.n", Strs())]("x", 1);
                Function g = makers["cnt " + key("void.C.n", Strs())]("y", 2);
                f = std::move(g);
                Function h(std::move(f));
                Overloads o;
                o.add(std::move(h));
                try { o.add(makers["fun " + key("void.C.n", Strs())]("x", 1)); } catch (const Error&) {}
                o.add(makers["fun " + key("void.C.n", Strs(1, "U0.C.n"))]("x", 1));
            }
        }
        long d = long(__sanitizer_get_current_allocated_bytes()) - long(before);
        r.push_back(d == 0 ? "0" : d > 0 ? "leak" : "less");
    }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); abort(); }
    return r;
}

static Strs run(const Cmd& c)
{
    init();
    static bool casts = false;
    if (!casts) { casts = true; addCasters<0>(); addCasters<1>(); addCasters<2>(); }
    T.log.clear();
    Strs r;
    try { r = run_(c); }
    catch (const Error&) { r.assign(1, "err"); }
    catch (const std::exception& e) { r.assign(1, "exception"); }
    for (auto& l : T.log) r.push_back(l);
    r.push_back(S(long(T.live.size()) - long(baseLive)));
    r.push_back(S(long(T.fns.size())));
    for (auto& f : T.flags) r.push_back(f);
    T.flags.clear();
    return r;
}

// The functions, tests and calls which are compiled in: the generator of scripts only uses these.
static int pool(const char* file)
{
    registerPool1(); registerPool2(); registerPool3();
    registerCallers1(); registerCallers2(); registerCallers3();
    addCasters<0>(); addCasters<1>(); addCasters<2>();
    FILE* o = fopen(file, "w");
    if (!o) return 2;
    // "kind ret(a,b)" -> list of the words
    auto words = [] (const std::string& s, bool kind) {
        Strs w;
        size_t p = 0;
        if (kind) { w.push_back(s.substr(0, 3)); p = 4; }
        size_t q = s.find('(', p);
        w.push_back(s.substr(p, q - p));
        std::string rest = s.substr(q + 1, s.size() - q - 2);
        while (!rest.empty()) {
            size_t c = rest.find(',');
            w.push_back(rest.substr(0, c));
            rest = c == std::string::npos ? "" : rest.substr(c + 1);
        }
        return hx::list(w);
    };
    bool first;
    auto item = [&] (const std::string& s) { fprintf(o, "%s%s", first ? "" : ",\n", s.c_str()); first = false; };
    fprintf(o, "{\"makers\":["); first = true;
    for (auto& m : makers) item(words(m.first, true));
    fprintf(o, "],\n\"tests\":["); first = true;
    for (auto& m : staticTests) item(words(m.first, false));
    fprintf(o, "],\n\"gets\":["); first = true;
    for (auto& m : staticGets) item(words(m.first, false));
    fprintf(o, "],\n\"callers\":["); first = true;
    for (auto& m : callers) item(words(m.first, false));
    fprintf(o, "],\n\"casters\":["); first = true;
    for (auto& m : casters) item(hx::esc(m.first));
    fprintf(o, "]}\n");
    fclose(o);
    return 0;
}

int main(int argc, char** argv)
{
    if (argc == 3 && !strcmp(argv[1], "--pool")) return pool(argv[2]);
    return hx::main(argc, argv, run);
}
