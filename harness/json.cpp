// JSON reading, parsing and printing: events for spec/TraceJson.tla.
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/pointer.h"
#include "types/reflect/value.h"
#include "utils/json.h"
#include "hx.h"
#include <cmath>
#include <memory>
#include <unordered_map>

using namespace reflect;
using hx::Strs;
using hx::Cmd;

struct Leaf { Leaf() : b(false), i(0), d(0) {} bool b; int64_t i; double d; std::string s; };
struct Der : public Leaf { std::vector<int64_t> extra; };
struct XY { XY() : x(0), y(0) {} int64_t x, y; };
struct Half { Half() : h(0) {} int64_t h; };
struct Node {
    Node() : raw(nullptr) {}
    std::string name; std::vector<Node> kids; Node* raw; std::shared_ptr<Node> sp; std::map<std::string, Node> m;
};
struct Opts {
    Opts() : hidden(0), b(false), i(0), d(0), p(nullptr), pp(nullptr), plain(0) {}
    int64_t hidden; bool b; int64_t i; double d; std::string s; std::vector<int64_t> v; std::map<std::string, int64_t> m;
    int64_t* p; Leaf o; std::shared_ptr<int64_t>* pp; XY q; int64_t plain;
};
struct Own {
    Own() : bad(0) {}
    std::unique_ptr<Leaf> q; std::unordered_map<std::string, int64_t> u; XY x; int64_t bad;
};
struct Pin {      // stays where it is
    Pin() : k(0), raw(nullptr) {}
    Pin(const Pin&) = delete; Pin& operator=(const Pin&) = delete;
    int64_t k; std::string s; Pin* raw; std::shared_ptr<Pin> sp; std::unique_ptr<Pin> uq;
};
struct Big {
    Leaf leaf; std::shared_ptr<Opts> opts; std::vector< std::vector<int64_t> > mat;
    std::map< std::string, std::vector<int64_t> > ml; std::vector<Leaf> leaves;
};
struct Dup { Dup() : a(0), b(0), c(0) {} int64_t a, b, c; };
struct HasDup { HasDup() : z(0) {} Leaf a; int64_t b; std::vector<Dup> dup; int64_t z; };

// Every member is set: json::Traits() leaves skipEmpty as it finds it.
static json::Traits tr(const std::string& alias, bool skip, bool se, const std::string& parse = "", const std::string& print = "")
{
    json::Traits t;
    t.skip = skip; t.skipEmpty = se; t.alias = alias; t.parser = parse; t.printer = print;
    return t;
}

reflectType(Leaf) { reflectPlumbing(); reflectAlloc(); reflectField(b); reflectField(i); reflectField(d); reflectField(s); }
reflectType(Der) { reflectParent(Leaf); reflectPlumbing(); reflectField(extra); }
reflectType(XY)
{
    reflectPlumbing();
    reflectTypeValue(json, tr("", false, false, "parse", "print"));
    reflectCustom(parse) (XY& p, json::Reader& reader) {
        json::parseArray(reader, [&] (size_t) { p.x = p.y; p.y = json::parseInt(reader); });
    };
    reflectCustom(print) (const XY& p, json::Writer& writer) {
        json::printArray(writer, 2, [&] (size_t i) { json::printInt(writer, i ? p.y : p.x); });
    };
}
reflectType(Half)
{
    reflectPlumbing();
    reflectField(h);
    reflectTypeValue(json, tr("", false, false, "parse", ""));
    reflectCustom(parse) (Half& p, json::Reader& reader) { p.h = json::parseInt(reader); };
}
reflectType(Node)
{
    reflectPlumbing(); reflectAlloc();
    reflectField(name); reflectFieldValue(name, json, tr("n", false, false));
    reflectField(kids);
    reflectField(raw); reflectFieldValue(raw, json, tr("a raw", false, false));
    reflectField(sp); reflectField(m);
}
reflectType(Opts)
{
    reflectPlumbing(); reflectAlloc();
    reflectField(hidden); reflectFieldValue(hidden, json, tr("", true, false));
    reflectField(b); reflectFieldValue(b, json, tr("", false, true));
    reflectField(i); reflectFieldValue(i, json, tr("zi", false, true));
    reflectField(d); reflectFieldValue(d, json, tr("", false, true));
    reflectField(s); reflectFieldValue(s, json, tr("S\"/", false, true));
    reflectField(v); reflectFieldValue(v, json, tr("", false, true));
    reflectField(m); reflectFieldValue(m, json, tr("", false, true));
    reflectField(p); reflectFieldValue(p, json, tr("", false, true));
    reflectField(o); reflectFieldValue(o, json, tr("", false, true));
    reflectField(pp); reflectFieldValue(pp, json, tr("", false, true));
    reflectField(q); reflectFieldValue(q, json, tr("", false, true));
    reflectField(plain);
}
reflectType(Own)
{
    reflectPlumbing();
    reflectField(q); reflectField(u); reflectField(x);
    reflectField(bad); reflectFieldValue(bad, json, tr("q", true, false));
}
reflectType(Pin)
{
    reflectPlumbing(); reflectAllocDefaultCons();
    reflectField(k); reflectField(s); reflectField(raw); reflectField(sp); reflectField(uq);
}
reflectType(Big) { reflectPlumbing(); reflectField(leaf); reflectField(opts); reflectField(mat); reflectField(ml); reflectField(leaves); }
reflectType(Dup)
{
    reflectPlumbing();
    reflectField(a); reflectField(b); reflectFieldValue(b, json, tr("a", false, false)); reflectField(c);
}
reflectType(HasDup) { reflectPlumbing(); reflectField(a); reflectField(b); reflectField(dup); reflectField(z); }

// Values are built and shown without the library.
struct Cur { const Strs& a; size_t i; const std::string& next() { return a.at(i++); } size_t count() { return atoi(next().c_str() + 1); } };
static std::string unhex(const std::string& h)
{
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(strtol(h.substr(i, 2).c_str(), nullptr, 16));
    return r;
}
static std::string hex(const std::string& s)
{
    std::string r;
    char b[4];
    for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
    return r;
}
static std::string text(const std::string& s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c >= 32 && c < 127) r += char(c);
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}
static std::string dbl(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

static void build(Cur& c, bool& v) { v = c.next() == "T"; }
static void build(Cur& c, int64_t& v) { v = strtoll(c.next().c_str(), nullptr, 10); }
static void build(Cur& c, double& v) { v = strtod(c.next().c_str(), nullptr); }
static void build(Cur& c, std::string& v) { v = unhex(c.next()); }
template<typename T> static void build(Cur& c, std::vector<T>& v);
template<typename T> static void build(Cur& c, std::map<std::string, T>& v);
template<typename T> static void build(Cur& c, std::unordered_map<std::string, T>& v);
template<typename T> static void build(Cur& c, T*& v);
template<typename T> static void build(Cur& c, std::shared_ptr<T>& v);
template<typename T> static void build(Cur& c, std::unique_ptr<T>& v);
static void build(Cur& c, Leaf& v) { build(c, v.b); build(c, v.i); build(c, v.d); build(c, v.s); }
static void build(Cur& c, Der& v) { build(c, static_cast<Leaf&>(v)); build(c, v.extra); }
static void build(Cur& c, XY& v) { build(c, v.x); build(c, v.y); }
static void build(Cur& c, Half& v) { build(c, v.h); }
static void build(Cur& c, Node& v) { build(c, v.name); build(c, v.kids); build(c, v.raw); build(c, v.sp); build(c, v.m); }
static void build(Cur& c, Opts& v)
{
    build(c, v.hidden); build(c, v.b); build(c, v.i); build(c, v.d); build(c, v.s); build(c, v.v); build(c, v.m);
    build(c, v.p); build(c, v.o); build(c, v.pp); build(c, v.q); build(c, v.plain);
}
static void build(Cur& c, Own& v) { build(c, v.q); build(c, v.u); build(c, v.x); build(c, v.bad); }
static void build(Cur& c, Pin& v) { build(c, v.k); build(c, v.s); build(c, v.raw); build(c, v.sp); build(c, v.uq); }
static void build(Cur& c, Big& v) { build(c, v.leaf); build(c, v.opts); build(c, v.mat); build(c, v.ml); build(c, v.leaves); }
static void build(Cur&, Value&) {}
static void build(Cur&, Dup&) {}
static void build(Cur&, HasDup&) {}
template<typename T> static void build(Cur& c, std::vector<T>& v) { v.resize(c.count()); for (auto& x : v) build(c, x); }
template<typename T> static void build(Cur& c, std::map<std::string, T>& v) { for (size_t n = c.count(); n; --n) { std::string k = unhex(c.next()); T x; build(c, x); v[k] = std::move(x); } }
template<typename T> static void build(Cur& c, std::unordered_map<std::string, T>& v) { for (size_t n = c.count(); n; --n) { std::string k = unhex(c.next()); build(c, v[k]); } }
template<typename T> static void build(Cur& c, T*& v) { v = nullptr; if (c.count()) { v = new T(); build(c, *v); } }
template<typename T> static void build(Cur& c, std::shared_ptr<T>& v) { if (c.count()) { v.reset(new T()); build(c, *v); } }
template<typename T> static void build(Cur& c, std::unique_ptr<T>& v) { if (c.count()) { v.reset(new T()); build(c, *v); } }

static std::string dump(bool v) { return v ? "T" : "F"; }
static std::string dump(int64_t v) { return std::to_string(v); }
static std::string dump(double v) { return "f" + dbl(v); }
static std::string dump(const std::string& v) { return "'" + text(v) + "'"; }
template<typename T> static std::string dump(const std::vector<T>& v);
template<typename T> static std::string dump(const std::map<std::string, T>& v);
template<typename T> static std::string dump(const std::unordered_map<std::string, T>& v);
template<typename T> static std::string dump(T* const& v);
template<typename T> static std::string dump(const std::shared_ptr<T>& v);
template<typename T> static std::string dump(const std::unique_ptr<T>& v);
static std::string dump(const Leaf& v) { return "(" + dump(v.b) + "," + dump(v.i) + "," + dump(v.d) + "," + dump(v.s) + ")"; }
static std::string dump(const Der& v) { std::string b = dump(static_cast<const Leaf&>(v)); return b.substr(0, b.size() - 1) + "," + dump(v.extra) + ")"; }
static std::string dump(const XY& v) { return "(" + dump(v.x) + "," + dump(v.y) + ")"; }
static std::string dump(const Half& v) { return "(" + dump(v.h) + ")"; }
static std::string dump(const Node& v) { return "(" + dump(v.name) + "," + dump(v.kids) + "," + dump(v.raw) + "," + dump(v.sp) + "," + dump(v.m) + ")"; }
static std::string dump(const Opts& v)
{
    return "(" + dump(v.hidden) + "," + dump(v.b) + "," + dump(v.i) + "," + dump(v.d) + "," + dump(v.s) + "," + dump(v.v) + "," +
        dump(v.m) + "," + dump(v.p) + "," + dump(v.o) + "," + dump(v.pp) + "," + dump(v.q) + "," + dump(v.plain) + ")";
}
static std::string dump(const Own& v) { return "(" + dump(v.q) + "," + dump(v.u) + "," + dump(v.x) + "," + dump(v.bad) + ")"; }
static std::string dump(const Pin& v) { return "(" + dump(v.k) + "," + dump(v.s) + "," + dump(v.raw) + "," + dump(v.sp) + "," + dump(v.uq) + ")"; }
static std::string dump(const Big& v) { return "(" + dump(v.leaf) + "," + dump(v.opts) + "," + dump(v.mat) + "," + dump(v.ml) + "," + dump(v.leaves) + ")"; }
static std::string dump(const Dup&) { return "void"; }
static std::string dump(const HasDup&) { return "void"; }
static std::string dump(const Value& v)
{
    if (v.isVoid()) return "void";
    typedef std::vector<Value> A;
    typedef std::unordered_map<std::string, Value> O;
    if (v.type() == type<bool>()) return dump(v.get<bool>());
    if (v.type() == type<int64_t>()) return dump(v.get<int64_t>());
    if (v.type() == type<double>()) return dump(v.get<double>());
    if (v.type() == type<std::string>()) return dump(v.get<std::string>());
    if (v.type() == type<A>()) return dump(v.get<A>());
    if (v.type() == type<O>()) return dump(v.get<O>());
    return "?" + v.type()->id();
}
template<typename T> static std::string join(const char* open, const T& items, const char* close)
{
    std::string r = open;
    bool first = true;
    for (auto& s : items) { r += (first ? "" : ",") + s; first = false; }
    return r + close;
}
template<typename T> static std::string dump(const std::vector<T>& v) { Strs s; for (auto& x : v) s.push_back(dump(x)); return join("[", s, "]"); }
template<typename T> static std::string dump(const std::map<std::string, T>& v) { Strs s; for (auto& x : v) s.push_back("'" + text(x.first) + "':" + dump(x.second)); return join("{", s, "}"); }
template<typename T> static std::string dump(const std::unordered_map<std::string, T>& v)
{
    std::map<std::string, const T*> o;
    for (auto& x : v) o[x.first] = &x.second;
    Strs s;
    for (auto& x : o) s.push_back("'" + text(x.first) + "':" + dump(*x.second));
    return join("{", s, "}");
}
template<typename T> static std::string dump(T* const& v) { return v ? "&" + dump(*v) : "null"; }
template<typename T> static std::string dump(const std::shared_ptr<T>& v) { return v ? "&" + dump(*v) : "null"; }
template<typename T> static std::string dump(const std::unique_ptr<T>& v) { return v ? "&" + dump(*v) : "null"; }

static std::string where(const json::Error& e)
{
    if (!e) return "";
    std::string m = e.what();
    size_t a = m.find(':'), b = a == std::string::npos ? a : m.find(':', a + 1);
    if (b == std::string::npos || b + 2 >= m.size()) return "unplaced error: " + m;    // no place or no text
    return m.substr(0, b);
}

struct Obj
{
    virtual ~Obj() {}
    virtual std::string show() const = 0;
    virtual Strs parse(const std::string& doc, int options) = 0;
    virtual Strs rparse(json::Reader& reader) = 0;
    virtual Strs print(int options) const = 0;
    virtual Strs round(int options) const = 0;
};
template<typename T> static json::Error parseInto(const std::string& doc, int options, T& v)
{
    // the short forms are used as well
    if (options == json::Reader::Default && doc.size() % 2) return json::parse(doc, v);
    std::istringstream in(doc);
    if (options == json::Reader::Default) return json::parse(in, v);
    json::Reader reader(in, json::Reader::Options(options));
    json::parse(reader, v);
    return reader.error();
}
template<typename T> static json::Error printFrom(const T& v, int options, std::string& doc)
{
    if (options == json::Writer::Default) {
        auto r = json::print(v);
        doc = r.first;
        return r.second;
    }
    std::ostringstream out;
    json::Writer writer(out, json::Writer::Options(options));
    json::print(writer, v);
    json::Error e = writer.error();
    doc = out.str();
    return e;
}
template<typename T> struct ObjOf : public Obj
{
    T v;
    ObjOf(const Strs& a) : v() { Cur c{ a, 1 }; build(c, v); }
    std::string show() const { return dump(v); }
    Strs parse(const std::string& doc, int options)
    {
        json::Error e = parseInto(doc, options, v);
        Strs r(1, where(e));
        r.push_back(show());
        return r;
    }
    Strs rparse(json::Reader& reader)
    {
        json::parse(reader, v);
        return { where(reader.error()), show() };
    }
    Strs print(int options) const
    {
        std::string doc;
        json::Error e = printFrom(v, options, doc);
        Strs r(1, hex(doc));
        r.push_back(e ? (*e.what() ? "err" : "empty error") : "");
        return r;
    }
    Strs round(int options) const
    {
        std::string doc, doc2;
        Strs r;
        json::Error e = printFrom(v, options, doc);
        if (e) { r.push_back(std::string("print: ") + e.what()); r.push_back(""); r.push_back(""); return r; }
        T fresh{};
        json::Error pe = parseInto(doc, json::Reader::Default, fresh);
        r.push_back(pe ? pe.what() : "");
        r.push_back(dump(fresh));
        json::Error e2 = printFrom(fresh, options, doc2);
        r.push_back(e2 ? std::string("ff") : hex(doc2));
        return r;
    }
};

static Strs traits(const json::Traits& t)
{
    unsigned char se;
    memcpy(&se, &t.skipEmpty, 1);
    return { t.skip ? "1" : "0", se ? "1" : "0", t.alias, t.parser, t.printer };
}

static std::istringstream* in;
static json::Reader* reader;
static Obj* obj;

static void token(Strs& r, const json::Token& t)
{
    using json::Token;
    r.push_back(json::print(t.type()));
    std::string shown = t.print();
    size_t p = shown.find(": ");
    std::string written = p == std::string::npos ? "" : shown.substr(p + 2, shown.size() - p - 3);
    switch (t.type()) {
    case Token::String: r.push_back(t.asString() == written ? hex(t.asString()) : "printed otherwise"); break;
    case Token::Int: case Token::Float: r.push_back(hex(written)); break;
    case Token::Bool: r.push_back((t.asBool() ? "true" : "false") == written ? written : "printed otherwise"); break;
    default: r.push_back("-");
    }
    std::string i = "-", f = "-";
    if (t.type() == Token::Int) {
        try { i = std::to_string(t.asInt()); }
        catch (const std::out_of_range&) { i = "range"; }
        catch (const std::invalid_argument&) { i = "invalid"; }
    }
    if (t.type() == Token::Int || t.type() == Token::Float) f = dbl(t.asFloat());
    r.push_back(i);
    r.push_back(f);
}

template<typename Fn> static Obj* make(const Strs& a, const Fn& unknown);

static Strs run(const Cmd& c)
{
    using json::Token;
    static const std::map<std::string, Token::Type> types = {
        { "{", Token::ObjectStart }, { "}", Token::ObjectEnd }, { "[", Token::ArrayStart }, { "]", Token::ArrayEnd },
        { ",", Token::Separator }, { ":", Token::KeySeparator }, { "string", Token::String }, { "int", Token::Int },
        { "float", Token::Float }, { "bool", Token::Bool }, { "null", Token::Null }, { "eos", Token::EOS } };
    Strs r;
    std::string doc;
    for (size_t i = 1; i < c.n.size(); ++i) doc += char(c.n[i]);
    try {
        if (c.op == "reader") {
            delete reader; delete in;
            in = new std::istringstream(doc);
            reader = new json::Reader(*in, json::Reader::Options(c.n[0]));
            return r;
        }
        if (c.op == "traits") {     // what a fresh Traits holds, whatever the memory held
            alignas(json::Traits) static unsigned char memory[sizeof(json::Traits)];
            memset(memory, int(c.n[0]), sizeof memory);
            json::Traits* t = new (memory) json::Traits();
            return traits(*t);
        }
        if (c.op == "mix")
            return traits(tr(c.a[0], c.n[0], c.n[1], c.a[1], c.a[2]) | tr(c.a[3], c.n[2], c.n[3], c.a[4], c.a[5]));
        if (c.op == "make") {
            json::Traits t = c.a[0] == "skip" ? json::skip() : c.a[0] == "skipEmpty" ? json::skipEmpty() :
                    c.a[0] == "alias" ? json::alias(c.a[1]) : json::custom(c.a[1], c.a[2]);
            if (c.a[0] != "skipEmpty") t.skipEmpty = false;     // known finding
            return traits(t);
        }
        if (c.op == "all") {
            std::istringstream is(doc);
            json::Reader rd(is, json::Reader::Options(c.n[0]));
            for (size_t i = 0; i < 1000; ++i) {
                json::Token t = rd.nextToken();
                if (rd.error() || t.type() == json::Token::EOS) break;
                token(r, t);
            }
            if (rd.nextToken().type() != json::Token::EOS) r.push_back("a token past the end");
            r.push_back(where(rd.error()));
            return r;
        }
        if (c.op == "new") {
            obj = make(c.a, [] { fprintf(stderr, "unknown type\n"); _exit(3); });
            r.push_back(obj->show());
            return r;
        }
        if (c.op == "parse") {
            try { return obj->parse(doc, c.n[0]); }
            catch (const reflect::Error& e) { r.push_back("exception"); r.push_back(e.what()); return r; }
        }
        if (c.op == "rparse") {
            try { return obj->rparse(*reader); }
            catch (const reflect::Error& e) { r.push_back("exception"); r.push_back(e.what()); return r; }
        }
        if (c.op == "print") {
            try { return obj->print(c.n[0]); }
            catch (const reflect::Error& e) { return {"exception", e.what()}; }
        }
        if (c.op == "round") {
            try { return obj->round(c.n[0]); }
            catch (const reflect::Error& e) { return {"exception", e.what(), ""}; }
        }
        if (c.op == "where") {
            r.push_back(std::to_string(reader->line()) + ":" + std::to_string(reader->pos()));
            return r;
        }
        if (c.op == "next") token(r, reader->nextToken());
        else if (c.op == "peek") token(r, reader->peekToken());
        else if (c.op == "expect") token(r, reader->expectToken(types.at(c.a[0])));
        else if (c.op == "skip") { json::skip(*reader); r.push_back("-"); }
        else if (c.op == "pnull") { json::parseNull(*reader); r.push_back("-"); }
        else if (c.op == "pbool") r.push_back(json::parseBool(*reader) ? "true" : "false");
        else if (c.op == "pint") r.push_back(std::to_string(json::parseInt(*reader)));
        else if (c.op == "pfloat") r.push_back(dbl(json::parseFloat(*reader)));
        else if (c.op == "pstring") r.push_back(hex(json::parseString(*reader)));
        else if (c.op == "keys") {
            std::string keys;
            json::parseObject(*reader, [&] (const std::string& key) {
                keys += (keys.empty() ? "" : ",") + hex(key);
                json::skip(*reader);
            });
            r.push_back(keys);
        }
        else if (c.op == "items") {
            size_t n = 0;
            json::parseArray(*reader, [&] (size_t i) { n = i + 1; json::skip(*reader); });
            r.push_back(std::to_string(n));
        }
        else { fprintf(stderr, "unknown command %s\n", c.op.c_str()); _exit(3); }
        r.push_back(where(reader->error()));
    }
    catch (const reflect::Error& e) { r.assign(1, std::string("exception: ") + e.what()); }
    catch (const std::exception& e) { r.assign(1, std::string("exception of another kind: ") + e.what()); }
    return r;
}

template<typename Fn> static Obj* make(const Strs& a, const Fn& unknown)
{
    const std::string& t = a[0];
    typedef std::shared_ptr<int64_t> SI;
    typedef std::unique_ptr<int64_t> QI;
    typedef std::vector<int64_t> Ints;
#define T_(name, ...) if (t == name) return new ObjOf< __VA_ARGS__ >(a)
    T_("bool", bool); T_("int", int64_t); T_("float", double); T_("string", std::string); T_("any", Value); T_("xy", XY);
    T_("ints", Ints); T_("strs", std::vector<std::string>); T_("dbls", std::vector<double>); T_("mat", std::vector<Ints>);
    T_("leaves", std::vector<Leaf>); T_("sps", std::vector<SI>); T_("mi", std::map<std::string, int64_t>);
    T_("ms", std::map<std::string, std::string>); T_("ml", std::map<std::string, Ints>);
    T_("ui", std::unordered_map<std::string, int64_t>); T_("mo", std::map<std::string, Leaf>);
    T_("mq", std::map<std::string, SI>);
    T_("pi", int64_t*); T_("si", SI); T_("qi", QI); T_("ps", std::string*); T_("pp", SI*); T_("pl", std::shared_ptr<Ints>);
    T_("xys", std::vector<XY>); T_("halves", std::vector<Half>); T_("half", Half);
    T_("nodes", std::vector<Node>); T_("nodep", Node*); T_("nodesp", std::shared_ptr<Node>); T_("nodem", std::map<std::string, Node>);
    T_("leafq", std::unique_ptr<Leaf>); T_("optsp", std::shared_ptr<Opts>);
    T_("leaf", Leaf); T_("der", Der); T_("node", Node); T_("opts", Opts); T_("own", Own); T_("big", Big);
    T_("pin", Pin); T_("pinp", Pin*); T_("pinsp", std::shared_ptr<Pin>); T_("pinq", std::unique_ptr<Pin>); T_("pinpp", Pin**);
    T_("dup", Dup); T_("dups", std::vector<Dup>); T_("hasdup", HasDup);
#undef T_
    unknown();
    return nullptr;
}

int main(int argc, char** argv) { return hx::main(argc, argv, run); }
