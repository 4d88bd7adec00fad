From 8609c2d00e0f2f80b1b592cd2cea6ba970ada7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/30] fix: hold the registry lock for the duration of each
 operation

std::lock_guard<std::mutex>(registry.lock); declares and immediately destroys a
temporary, so nothing was protected. Name the guards and make the lock recursive
because loaders call back into the registry.
---
 src/registry.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 461b467..7115864 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -19,19 +19,18 @@ namespace {
 
 struct RegistryState
 {
-    std::mutex lock;
+    // Recursive because loaders look up and register other types.
+    std::recursive_mutex lock;
     std::unordered_map<std::string, const Type*> types;
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
     Scope scopes;
 };
 
-RegistryState* registry_ = nullptr;
-
 RegistryState& getRegistry()
 {
-    if (!registry_) registry_ = new RegistryState();
-    return *registry_;
+    static RegistryState* registry = new RegistryState();
+    return *registry;
 }
 
 } // namespace anonymous
@@ -53,7 +52,7 @@ Registry::
 get(const std::string& id)
 {
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     const std::string* pId = &id;
 
@@ -109,7 +108,7 @@ add(const std::string& id, std::function<void(Type*)> loader)
         reflectError("can't add loader for<%s>", id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
@@ -124,7 +123,7 @@ alias(const std::string& id, const std::string& alias)
         reflectError("<%s> can't be aliased to <%s>", alias, id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
     if (!ret.second) {
-- 
2.43.0


From 4daf4af0bee54af3045a8c1870b9cc4ec6e9aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 02/30] fix: publish a template type's loader before marking it
 as loaded

The flag was set first, so a second thread could skip the registration and fail
to find the loader. Registering twice is harmless: the first loader wins.
---
 src/dsl/template.h | 4 ++--
 src/reflect.h      | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dsl/template.h b/src/dsl/template.h
index ab1184c..6984b34 100644
--- a/src/dsl/template.h
+++ b/src/dsl/template.h
@@ -17,10 +17,10 @@ namespace reflect {
 #define reflectTemplateLoader()                 \
     static void loader()                        \
     {                                           \
-        static bool loaded = false;             \
+        static std::atomic<bool> loaded(false); \
         if (loaded) return;                     \
-        loaded = true;                          \
         Registry::add<T_>();                    \
+        loaded = true;                          \
     }
 
 
diff --git a/src/reflect.h b/src/reflect.h
index 607a90c..744f36a 100644
--- a/src/reflect.h
+++ b/src/reflect.h
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <string>
 #include <memory>
 #include <functional>
-- 
2.43.0


From 0082abc6482989327c7be721fcd7e17668cdbb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 03/30] fix: don't hold a static initialization guard while
 waiting on the registry

---
 src/argument.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index e279d7b..5f5452e 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -92,7 +92,12 @@ Match
 Argument::
 isConvertibleTo(const Argument& target) const
 {
-    static const Type* valueType = reflect::type<Value>();
+    // Not a plain static: the initialization guard would be held while waiting on
+    // the registry lock and loaders, which hold that lock, also end up in here.
+    static std::atomic<const Type*> valueTypeCache(nullptr);
+
+    const Type* valueType = valueTypeCache;
+    if (!valueType) valueTypeCache = valueType = reflect::type<Value>();
 
     if (*this == target) return Match::Exact;
 
-- 
2.43.0


From b34eb0bbd95a18defe37c8b5b64abe521075d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 04/30] fix: error messages longer than 1024 characters read
 past the buffer

---
 src/error.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7edf5b..bd3714d 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -21,10 +21,22 @@ std::string verrorFormat(const char* fmt, ...)
     std::va_list args;
     va_start(args, fmt);
 
-    char buf[1024];
-    int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, args);
+    std::va_list retry;
+    va_copy(retry, args);
 
-    return std::string(buf, n);
+    std::string result(1024, '\0');
+    int n = std::vsnprintf(&result[0], result.size(), fmt, args);
+
+    if (n >= int(result.size())) {
+        result.resize(n + 1);
+        std::vsnprintf(&result[0], result.size(), fmt, retry);
+    }
+
+    va_end(retry);
+    va_end(args);
+
+    result.resize(n < 0 ? 0 : n);
+    return result;
 }
 
 
-- 
2.43.0


From d256a9b1343ee76414b4024c40cf16c52c31bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 05/30] fix: move assigning a Function leaked the callable it
 replaced

---
 src/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/function.cpp b/src/function.cpp
index 0c2a826..c5ceda4 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -32,6 +32,7 @@ operator=(Function&& other) noexcept
 {
     if (this == &other) return *this;
 
+    if (fn) freeValueFunction(fn);
     fn = other.fn;
     other.fn = nullptr;
 
-- 
2.43.0


From e46dd52673abd9f6e1f028ac4afe4ab166288005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 06/30] fix: initialize the reference type of a void argument

---
 src/argument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 5f5452e..42e3a9f 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -41,7 +41,9 @@ std::ostream& operator<<(std::ostream& stream, Match match)
 /******************************************************************************/
 
 Argument::
-Argument() : type_(reflect::type<void>()), isConst_(false) {}
+Argument() :
+    type_(reflect::type<void>()), refType_(RefType::Copy), isConst_(false)
+{}
 
 Argument::
 Argument(const Type* type, RefType refType, bool isConst) :
-- 
2.43.0


From 6931071a89fa6054039ca91594b42d382f7e24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 07/30] fix: Scope::hasFunction aborted when a scope of the
 path doesn't exist

---
 src/scope.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8850893..cf5a7e0 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -345,8 +345,10 @@ hasFunction(const std::string& name) const
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->hasFunction(split.first);
+    if (!split.second.empty()) {
+        return hasScope(split.second)
+            && scope(split.second)->hasFunction(split.first);
+    }
 
     auto it = functions_.find(split.first);
     return it != functions_.end();
-- 
2.43.0


From ad4bf94513e53366f83acb1ad610d3b9c3082f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 08/30] fix: duplicate field error printed a moved-from field

---
 src/type.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/type.cpp b/src/type.cpp
index fa66f24..f1b4294 100644
--- a/src/type.cpp
+++ b/src/type.cpp
@@ -167,11 +167,13 @@ addField(const std::string& name, Field&& field)
                 field.print(), it->second.print(), id());
     }
 
-    auto ret = fields_.emplace(name, std::move(field));
-    if (!ret.second) {
+    auto fieldIt = fields_.find(name);
+    if (fieldIt != fields_.end()) {
         reflectError("field <%s> already exists as field <%s> in <%s>",
-                field.print(), ret.first->second.print(), id());
+                field.print(), fieldIt->second.print(), id());
     }
+
+    fields_.emplace(name, std::move(field));
 }
 
 void
-- 
2.43.0


From a117ef359ec1ee9b30ba9eeb9a40f293e932e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 09/30] fix: a type refused by the global scope kept its loader

---
 src/registry.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 7115864..b62409f 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -110,9 +110,10 @@ add(const std::string& id, std::function<void(Type*)> loader)
     auto& registry = getRegistry();
     std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
-    // If we already have a loader then too-bad.
-    registry.loaders.emplace(std::move(id), std::move(loader));
     registry.scopes.addType(id);
+
+    // If we already have a loader then too-bad.
+    registry.loaders.emplace(id, std::move(loader));
 }
 
 void
-- 
2.43.0


From 2f1a5f25503dc1ab661576224a79bd6e3993300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 10/30] fix: integer literals are valid json floats

parseFloat lets Int tokens through but Token::asFloat aborted on them. Also don't
throw a std exception out of a reader for denormal or huge values.
---
 src/utils/json/token.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 64dccad..5d0d27b 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -49,10 +49,10 @@ double
 Token::
 asFloat() const
 {
-    if (type_ != Float)
+    if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
-    return std::stod(*value_);
+    return std::strtod(value_->c_str(), nullptr);
 }
 
 const std::string&
-- 
2.43.0


From c008ad67f806f8a689d6aa579c3661d67192e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 11/30] fix: malformed json aborted, crashed or was accepted
 instead of being an error

A mismatched token was converted without checking that it had the expected type
(abort), a document truncated right after an opening brace was accepted, skipping
an unskippable token passed an object through varargs, and numbers that don't fit
threw std exceptions.
---
 src/utils/json/json.h     |  1 +
 src/utils/json/parser.cpp | 12 +++++++----
 src/utils/json/parser.tcc | 45 +++++++++++++++++++++++++++------------
 src/utils/json/token.cpp  |  8 ++++++-
 4 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/utils/json/json.h b/src/utils/json/json.h
index 0e2e7db..c46ee74 100644
--- a/src/utils/json/json.h
+++ b/src/utils/json/json.h
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <istream>
 #include <ostream>
 #include <sstream>
diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index f14d695..d63ac85 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -57,7 +57,8 @@ struct BoolParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseBool(reader));
+        bool parsed = parseBool(reader);
+        if (!reader.error()) value.assign(std::move(parsed));
     }
 };
 
@@ -65,7 +66,8 @@ struct IntParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseInt(reader));
+        int64_t parsed = parseInt(reader);
+        if (!reader.error()) value.assign(std::move(parsed));
     }
 };
 
@@ -73,7 +75,8 @@ struct FloatParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseFloat(reader));
+        double parsed = parseFloat(reader);
+        if (!reader.error()) value.assign(std::move(parsed));
     }
 };
 
@@ -81,7 +84,8 @@ struct StringParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseString(reader));
+        std::string parsed = parseString(reader);
+        if (!reader.error()) value.assign(std::move(parsed));
     }
 };
 
diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f2f99b3..d6327bb 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -21,12 +21,20 @@ void parseNull(Reader& reader)
 
 bool parseBool(Reader& reader)
 {
-    return reader.expectToken(Token::Bool).asBool();
+    Token token = reader.expectToken(Token::Bool);
+    return token.type() == Token::Bool ? token.asBool() : false;
 }
 
 int64_t parseInt(Reader& reader)
 {
-    return reader.expectToken(Token::Int).asInt();
+    Token token = reader.expectToken(Token::Int);
+    if (token.type() != Token::Int || reader.error()) return 0;
+
+    try { return token.asInt(); }
+    catch (const std::out_of_range&) {
+        reader.error("integer out of range: %s", token.print());
+        return 0;
+    }
 }
 
 double parseFloat(Reader& reader)
@@ -34,14 +42,19 @@ double parseFloat(Reader& reader)
     Token token = reader.nextToken();
 
     if (token.type() == Token::Int);
-    else reader.assertToken(token, Token::Float);
+    else if (!reader.assertToken(token, Token::Float)) return 0;
 
-    return token.asFloat();
+    double value = token.asFloat();
+    if (std::isinf(value))
+        reader.error("float out of range: %s", token.print());
+
+    return value;
 }
 
 std::string parseString(Reader& reader)
 {
-    return reader.expectToken(Token::String).asString();
+    Token token = reader.expectToken(Token::String);
+    return token.type() == Token::String ? token.asString() : std::string();
 }
 
 template<typename Fn>
@@ -49,7 +62,7 @@ void parseObject(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ObjectStart);
+    if (!reader.assertToken(token, Token::ObjectStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ObjectEnd) {
@@ -57,16 +70,19 @@ void parseObject(Reader& reader, const Fn& fn)
         return;
     }
 
-    while (reader) {
+    while (true) {
         token = reader.expectToken(Token::String);
+        if (token.type() != Token::String) return;
+
         const std::string& key = token.asString();
-        token = reader.expectToken(Token::KeySeparator);
+        if (!reader.assertToken(reader.nextToken(), Token::KeySeparator)) return;
 
         fn(key);
+        if (reader.error()) return;
 
         token = reader.nextToken();
         if (token.type() == Token::ObjectEnd) return;
-        reader.assertToken(token, Token::Separator);
+        if (!reader.assertToken(token, Token::Separator)) return;
     }
 }
 
@@ -75,7 +91,7 @@ void parseArray(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ArrayStart);
+    if (!reader.assertToken(token, Token::ArrayStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ArrayEnd) {
@@ -83,12 +99,13 @@ void parseArray(Reader& reader, const Fn& fn)
         return;
     }
 
-    for (size_t i = 0; reader; ++i) {
+    for (size_t i = 0; ; ++i) {
         fn(i);
+        if (reader.error()) return;
 
         token = reader.nextToken();
         if (token.type() == Token::ArrayEnd) return;
-        reader.assertToken(token, Token::Separator);
+        if (!reader.assertToken(token, Token::Separator)) return;
     }
 }
 
@@ -96,7 +113,7 @@ void parseArray(Reader& reader, const Fn& fn)
 void skip(Reader& reader)
 {
     Token token = reader.peekToken();
-    if (!reader) return;
+    if (reader.error()) return;
 
     switch (token.type()) {
 
@@ -117,7 +134,7 @@ void skip(Reader& reader)
         break;
 
     default:
-        reader.error("unable to skip token %s", token);
+        reader.error("unable to skip token %s", token.print());
         break;
 
     }
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 5d0d27b..4662b23 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -287,9 +287,13 @@ Token::Type readNumber(Reader& reader, char c)
     reader.resetBuffer();
     reader.save(c); // can be either - or [0-9].
 
+    size_t digits = std::isdigit(c) ? 1 : 0;
+
     auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek()))
+        while (reader && std::isdigit(c = reader.peek())) {
             reader.save(reader.pop());
+            digits++;
+        }
     };
 
     auto readChar = [&] (char c) {
@@ -313,6 +317,8 @@ Token::Type readNumber(Reader& reader, char c)
         readDigits();
     }
 
+    if (!digits) reader.error("number without any digits");
+
     if (readChars('e', 'E')) {
         type = Token::Float;
         readChars('+', '-');
-- 
2.43.0


From 3baef77af24980f57ca907dcfc73e0274ca3193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 12/30] fix: json error positions didn't count lines ending in
 a comment

---
 src/utils/json/token.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 4662b23..65b405d 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -125,6 +125,7 @@ char nextChar(Reader& reader)
                 reader.error("comments are not allowed");
 
             while (reader && (c = reader.pop()) != '\n') continue;
+            if (c == '\n') reader.newline();
             continue;
         }
 
-- 
2.43.0


From ac2df447c1bfdf1adb356e9046a38273c3f71ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 13/30] fix: json::print to a stream or string didn't compile
 when used

---
 src/utils/json/printer.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index acf7704..fe23d46 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -114,7 +114,8 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return parse(stream, value);
+    print(writer, value);
+    return writer.error();
 }
 
 template<typename T>
-- 
2.43.0


From 1ad206c48c88a011da72706238bb11f57029568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 14/30] fix: parsing null into a raw pointer left the pointer
 unchanged

The local handle was rebound to a new pointee instead of nulling the pointer.
---
 src/utils/json/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index d63ac85..36144c1 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -98,6 +98,7 @@ struct PointerParser : public Parser
 {
     void init(const Type* type)
     {
+        this->type = type;
         inner.init(type->pointee());
         isSmartPtr = type->is("smartPtr");
     }
@@ -108,7 +109,7 @@ struct PointerParser : public Parser
             reader.nextToken();
 
             if (isSmartPtr) ptr.call<void>("reset");
-            else ptr = inner.type->construct();
+            else ptr.assign(type->construct());
 
             return;
         }
@@ -129,6 +130,7 @@ struct PointerParser : public Parser
     }
 
 private:
+    const Type* type;
     TypeParser inner;
     bool isSmartPtr;
 };
-- 
2.43.0


From 85e8532ba20f900df66b93c1080d9d30ecff368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 15/30] fix: duplicate json aliases weren't detected when
 printing

---
 src/utils/json/printer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index e8fa643..ab28d59 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -250,8 +250,8 @@ struct ObjectPrinter : public Printer
                 isSkipEmpty = traits.skipEmpty;
             }
 
-            if (fields.count(key))
-                reflectError("duplicate json key <%s> in <%s>", key, type->id());
+            if (keys.count(alias))
+                reflectError("duplicate json key <%s> in <%s>", alias, type->id());
 
             keys[alias] = key;
             sortedKeys.push_back(alias);
-- 
2.43.0


From d6700cde61e1a2f0bf460f4b83a9ac0363683e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 16/30] fix: pretty printing nested past 1024 levels read past
 the padding buffer

---
 src/utils/json/writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 9cd1c5e..8b86c31 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -10,8 +10,6 @@ namespace json {
 /* WRITER                                                                     */
 /******************************************************************************/
 
-namespace { std::string spaces(4096ULL, ' '); }
-
 void
 Writer::
 space()
@@ -26,7 +24,7 @@ newline()
     if (!pretty()) return;
 
     push("\n");
-    push(spaces.c_str(), indent_ * 4);
+    for (size_t i = 0; i < indent_; ++i) push("    ", 4);
 }
 
 } // namespace json
-- 
2.43.0


From 539eca2f74e666732ac1127cef3cb7378824fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 17/30] fix: json mangled unicode past 0xFFFF and let invalid
 UTF-8 through

Such code points were printed with five or more hex digits after the \\u, which
reads back as something else: use surrogate pairs in both directions. Also reject
overlong sequences when escaping, and surrogates and out of range code points
everywhere.
---
 src/utils/json/format.cpp | 73 ++++++++++++++++++++++-----------------
 src/utils/json/token.cpp  | 37 ++++++++++++++------
 src/utils/json/utils.h    | 18 ++++++++++
 3 files changed, 86 insertions(+), 42 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9c8f743..ee5c8db 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -53,50 +53,59 @@ void formatFloat(Writer& writer, double value)
     format(writer, "%1.12g", value);
 }
 
-size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
+size_t readUnicode(Writer& writer, const std::string& value, size_t i, uint32_t& code)
 {
-    size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    size_t bytes = utf8Bytes(value[i]);
+    if (!bytes) {
+        writer.error("invalid UTF-8 header");
+        return 0;
+    }
+
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return 0;
+    }
 
     size_t leftover = 8 - (bytes + 1);
-    uint32_t code = value[i] & ((1 << leftover) - 1);
+    code = value[i] & ((1 << leftover) - 1);
 
-    i++;
-    for (size_t j = 0; writer && j < (bytes - 1); ++j, ++i) {
-        if ((value[i] & 0xC0) != 0x80) writer.error("invalid UTF-8 encoding");
-        code = (code << 6) | (value[i] & 0x3F);
+    for (size_t j = 1; j < bytes; ++j) {
+        if ((value[i + j] & 0xC0) != 0x80) writer.error("invalid UTF-8 encoding");
+        code = (code << 6) | (value[i + j] & 0x3F);
     }
 
-    format(writer, "\\u%04x", code);
+    if (!isValidUtf8(bytes, code)) writer.error("invalid UTF-8 encoding");
 
-    return i - 1;
+    return writer ? bytes : 0;
 }
 
-size_t readUnicode(Writer& writer, const std::string& value, size_t i)
+size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 {
-    size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
-
-    size_t leftover = 8 - (bytes + 1);
-    uint32_t code = value[i] & ((1 << leftover) - 1);
-    writer.push(value[i]);
-
-    i++;
-    for (size_t j = 0; writer && j < (bytes - 1); ++j, ++i) {
-        if ((value[i] & 0xC0) != 0x80) writer.error("invalid UTF-8 encoding");
-        code = (code << 6) | (value[i] & 0x3F);
-        writer.push(value[i]);
+    uint32_t code = 0;
+    size_t bytes = readUnicode(writer, value, i, code);
+    if (!bytes) return value.size();
+
+    // Code points past 0xFFFF are escaped as a pair of surrogates.
+    if (code > 0xFFFF) {
+        code -= 0x10000;
+        format(writer, "\\u%04x", 0xD800 + (code >> 10));
+        code = 0xDC00 + (code & 0x3FF);
     }
 
-    switch (bytes) {
-    case 4: if (code <= 0xFFFF) writer.error("invalid UTF-8 encoding"); break;
-    case 3: if (code <= 0x7FF) writer.error("invalid UTF-8 encoding"); break;
-    case 2: if (code <= 0x7F) writer.error("invalid UTF-8 encoding"); break;
-    }
+    format(writer, "\\u%04x", code);
+
+    return i + bytes - 1;
+}
+
+size_t validateUnicode(Writer& writer, const std::string& value, size_t i)
+{
+    uint32_t code = 0;
+    size_t bytes = readUnicode(writer, value, i, code);
+    if (!bytes) return value.size();
+
+    writer.push(value.data() + i, bytes);
 
-    return i - 1;
+    return i + bytes - 1;
 }
 
 void formatString(Writer& writer, const std::string& value)
@@ -112,7 +121,7 @@ void formatString(Writer& writer, const std::string& value)
                 continue;
             }
             else if (writer.validateUnicode()) {
-                i = readUnicode(writer, value, i);
+                i = validateUnicode(writer, value, i);
                 continue;
             }
         }
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 65b405d..3f1ce01 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -145,7 +145,7 @@ void readLiteral(Reader& reader, const char* literal)
     if (*l) reader.error("expected literal <%s>", literal);
 }
 
-void unescapeUnicode(Reader& reader)
+uint32_t readCodeUnit(Reader& reader)
 {
     uint32_t code = 0;
 
@@ -162,8 +162,28 @@ void unescapeUnicode(Reader& reader)
     }
 
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
+    return code;
+}
+
+void unescapeUnicode(Reader& reader)
+{
+    uint32_t code = readCodeUnit(reader);
     if (!reader) return;
 
+    // Code points past 0xFFFF are escaped as a pair of surrogates.
+    if (code >= 0xD800 && code <= 0xDFFF) {
+        uint32_t low = 0;
+
+        if (code <= 0xDBFF && reader.pop() == '\\' && reader.pop() == 'u')
+            low = readCodeUnit(reader);
+
+        if (low < 0xDC00 || low > 0xDFFF)
+            reader.error("unpaired unicode surrogate <%x>", code);
+        if (!reader) return;
+
+        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+    }
+
     auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
         reader.save(((code >> (6 * pos)) & mask) | head);
     };
@@ -219,8 +239,11 @@ void validateUnicode(Reader& reader, char c)
 {
     reader.save(c);
 
-    size_t bytes = clz(~c);
-    if (bytes > 4 || bytes < 2) reader.error("invalid UTF-8 header: %x", c);
+    size_t bytes = utf8Bytes(c);
+    if (!bytes) {
+        reader.error("invalid UTF-8 header: %x", c);
+        return;
+    }
 
     uint32_t mask = (1 << (7 - bytes)) - 1;
     uint32_t code = uint32_t(c) & mask;
@@ -231,13 +254,7 @@ void validateUnicode(Reader& reader, char c)
         code = (code << 6) | (c & 0x3F);
     }
 
-    switch (bytes) {
-    case 4: if (code > 0xFFFF) return; break;
-    case 3: if (code > 0x7FF) return; break;
-    case 2: if (code > 0x7F) return; break;
-    }
-
-    reader.error("invalid UTF-8 encoding");
+    if (!isValidUtf8(bytes, code)) reader.error("invalid UTF-8 encoding");
 }
 
 void readString(Reader& reader)
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 6c46988..3daf759 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -14,5 +14,23 @@ namespace json {
 
 size_t clz(char value) { return __builtin_clz(uint32_t(value) << 24); }
 
+// Length of the UTF-8 sequence introduced by header or 0 if it's not a header.
+size_t utf8Bytes(char header)
+{
+    size_t bytes = header == '\xFF' ? 8 : clz(~header);
+    return bytes >= 2 && bytes <= 4 ? bytes : 0;
+}
+
+// Whether bytes is the shortest encoding of code and code is a valid scalar.
+bool isValidUtf8(size_t bytes, uint32_t code)
+{
+    switch (bytes) {
+    case 4: return code > 0xFFFF && code <= 0x10FFFF;
+    case 3: return code > 0x7FF && (code < 0xD800 || code > 0xDFFF);
+    case 2: return code > 0x7F;
+    default: return false;
+    }
+}
+
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 089f8df755b3f68d387fce0c1369d3e753a20eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 18/30] fix: Value::move dropped the object when the move was
 refused

---
 src/value.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value.cpp b/src/value.cpp
index 5e0c84d..b4498ac 100644
--- a/src/value.cpp
+++ b/src/value.cpp
@@ -101,8 +101,10 @@ move()
         reflectError("<%s> is not movable", type()->id());
 
     Value arg = rvalue();
+    Value result = arg.type()->construct(arg);
+
     *this = Value();
-    return arg.type()->construct(arg);
+    return result;
 }
 
 Value
-- 
2.43.0


From ace3ce801a743152001bba82f61ab7a353d5dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 19/30] fix: casting to an rvalue reference moved out of
 constant objects

A constant object, or the object behind a const T&& parameter, can only be read
so copy it when we can.
---
 src/cast.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cast.h b/src/cast.h
index 5c1174b..a9cb290 100644
--- a/src/cast.h
+++ b/src/cast.h
@@ -86,6 +86,20 @@ private:
 
     template<typename T0>
     static TargetRef ret(Value& value, std::false_type, std::true_type, T0)
+    {
+        // Constness on either side means that we can't steal the content.
+        if (std::is_const<TargetRef>::value || value.isConst())
+            return retConst(value, T0());
+
+        return std::move(value.as<CleanTarget>());
+    }
+
+    static TargetRef retConst(Value& value, std::true_type)
+    {
+        return value.get<CleanTarget>();
+    }
+
+    static TargetRef retConst(Value& value, std::false_type)
     {
         return std::move(value.as<CleanTarget>());
     }
-- 
2.43.0


From 0c48b6cbdea45b143b0f02d6837b2db45ece887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 20/30] fix: functions which take a Value by reference could
 never be called

---
 src/cast.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/cast.h b/src/cast.h
index a9cb290..771cd6f 100644
--- a/src/cast.h
+++ b/src/cast.h
@@ -143,6 +143,32 @@ struct Cast<Value, Value>
     static const Value& cast(const Value&  value) { return value; }
 };
 
+template<>
+struct Cast<Value, Value&>
+{
+    template<typename U> static bool isCastable(U&&) { return true; }
+
+    static Value& cast(Value& value) { return value; }
+    static Value& cast(const Value& value)
+    {
+        reflectError("<%s> is temporary or const and can't be referenced",
+                value.argument().print());
+    }
+};
+
+template<>
+struct Cast<Value, const Value&>
+{
+    template<typename U> static bool isCastable(U&&) { return true; }
+
+    static const Value& cast(const Value& value) { return value; }
+    static const Value& cast(Value&& value)
+    {
+        reflectError("<%s> is a temporary and can't be referenced",
+                value.argument().print());
+    }
+};
+
 template<typename T>
 struct Cast<T, T>
 {
-- 
2.43.0


From d6c4881c6a78f7b4984b4c6b1764adb2efe7099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 21/30] fix: looking up a missing function created the scopes
 of its path

Scope::function() const was implemented on top of the non-const lookup,
which walks to the enclosing scope with the creating Scope::scope().
---
 src/scope.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index cf5a7e0..59d47bc 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -357,6 +357,14 @@ hasFunction(const std::string& name) const
 Overloads&
 Scope::
 function(const std::string& name)
+{
+    const Scope* self = this;
+    return const_cast<Overloads&>(self->function(name));
+}
+
+const Overloads&
+Scope::
+function(const std::string& name) const
 {
     auto split = tail(name);
 
@@ -370,11 +378,4 @@ function(const std::string& name)
     return it->second;
 }
 
-const Overloads&
-Scope::
-function(const std::string& name) const
-{
-    return const_cast<Scope*>(this)->function(name);
-}
-
 } // reflect
-- 
2.43.0


From feea090eed37f89ad78ef068d1734da540b2f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 22/30] fix: malformed names left the scopes of their first
 components behind

---
 src/scope.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/scope.cpp b/src/scope.cpp
index 59d47bc..4fc86b4 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -80,6 +80,16 @@ join(const std::string& head, const std::string& tail)
     return head.empty() ? tail : (head + "::" + tail);
 }
 
+namespace {
+
+// Rejects malformed names before anything is created for their first components.
+void validate(std::string name)
+{
+    while (!name.empty()) name = Scope::head(name).second;
+}
+
+} // namespace anonymous
+
 
 /******************************************************************************/
 /* BASICS                                                                     */
@@ -188,6 +198,7 @@ Scope*
 Scope::
 scope(const std::string& name)
 {
+    validate(name);
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -280,6 +291,7 @@ void
 Scope::
 addType(const std::string& name)
 {
+    validate(name);
     auto split = head(name);
 
     if (split.second.empty()) {
-- 
2.43.0


From 1c8b2d5347cc513c489a301004dd0b03c7c6a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 23/30] fix: looking up a nested scope that doesn't exist
 created it

The const lookup recursed into the creating one.
---
 src/scope.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 4fc86b4..09742e0 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -191,7 +191,8 @@ scope(const std::string& name) const
     if (it == scopes_.end())
         reflectError("<%s> doesn't have scope <%s>", name_, name);
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    const Scope* child = it->second;
+    return !split.second.empty() ? child->scope(split.second) : it->second;
 }
 
 Scope*
-- 
2.43.0


From e1e24c317a20bb957cbf5691b390613f45828cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 24/30] fix: json kept half-initialized parsers and printers
 when a type was refused

A type with duplicate aliases was refused the first time only; later uses
silently parsed or printed part of it.
---
 src/utils/json/parser.cpp  | 42 ++++++++++++++++++++++++++++++++------
 src/utils/json/printer.cpp | 42 ++++++++++++++++++++++++++++++++------
 2 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index 36144c1..9beb0c8 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -337,12 +337,35 @@ struct ValueParser : public Parser
 /* GET PARSER                                                                 */
 /******************************************************************************/
 
-const Parser* getParser(const Type* type)
+typedef std::unordered_map<const Type*, const Parser*> ParserMap;
+ParserMap& parsers()
+{
+    static ParserMap parsers;
+    return parsers;
+}
+
+// If init throws then the parsers built so far, which can refer to each other, are
+// dropped so that they're not used half-initialized later on.
+struct ParserRollback
 {
-    static std::unordered_map<const Type*, const Parser*> parsers;
+    ParserRollback() : saved(parsers()), done(false) {}
+    ~ParserRollback()
+    {
+        if (done) return;
+
+        for (const auto& entry : parsers())
+            if (!saved.count(entry.first)) delete entry.second;
+        parsers().swap(saved);
+    }
 
-    auto it = parsers.find(type);
-    if (it != parsers.end()) return it->second;
+    ParserMap saved;
+    bool done;
+};
+
+const Parser* getParser(const Type* type)
+{
+    auto it = parsers().find(type);
+    if (it != parsers().end()) return it->second;
 
     Parser* parser = nullptr;
 
@@ -360,7 +383,7 @@ const Parser* getParser(const Type* type)
 
     else parser = new ObjectParser;
 
-    parsers[type] = parser;
+    parsers()[type] = parser;
     parser->init(type);
 
     return parser;
@@ -371,7 +394,14 @@ const Parser* getParserLocked(const Type* type)
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-    return getParser(type);
+    auto it = parsers().find(type);
+    if (it != parsers().end()) return it->second;
+
+    ParserRollback rollback;
+    const Parser* parser = getParser(type);
+    rollback.done = true;
+
+    return parser;
 }
 
 } // namespace anonymous
diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index ab28d59..fd2eca4 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -338,12 +338,35 @@ private:
 /* GET PRINTER                                                                */
 /******************************************************************************/
 
-const Printer* getPrinter(const Type* type)
+typedef std::unordered_map<const Type*, const Printer*> PrinterMap;
+PrinterMap& printers()
+{
+    static PrinterMap printers;
+    return printers;
+}
+
+// If init throws then the printers built so far, which can refer to each other, are
+// dropped so that they're not used half-initialized later on.
+struct PrinterRollback
 {
-    static std::unordered_map<const Type*, const Printer*> printers;
+    PrinterRollback() : saved(printers()), done(false) {}
+    ~PrinterRollback()
+    {
+        if (done) return;
+
+        for (const auto& entry : printers())
+            if (!saved.count(entry.first)) delete entry.second;
+        printers().swap(saved);
+    }
 
-    auto it = printers.find(type);
-    if (it != printers.end()) return it->second;
+    PrinterMap saved;
+    bool done;
+};
+
+const Printer* getPrinter(const Type* type)
+{
+    auto it = printers().find(type);
+    if (it != printers().end()) return it->second;
 
     Printer* printer = nullptr;
 
@@ -362,7 +385,7 @@ const Printer* getPrinter(const Type* type)
 
     else printer = new ObjectPrinter;
 
-    printers[type] = printer;
+    printers()[type] = printer;
     printer->init(type);
 
     return printer;
@@ -373,7 +396,14 @@ const Printer* getPrinterLocked(const Type* type)
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-    return getPrinter(type);
+    auto it = printers().find(type);
+    if (it != printers().end()) return it->second;
+
+    PrinterRollback rollback;
+    const Printer* printer = getPrinter(type);
+    rollback.done = true;
+
+    return printer;
 }
 
 } // namespace anonymous
-- 
2.43.0


From a293257694390b5ad2f338c9d05e4a901b76da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 25/30] fix: reflectOperators refused classes with a single
 operator*

---
 src/dsl/operators.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 8ebed0c..c1972cd 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -37,6 +37,24 @@ namespace reflect {
 #define reflectOp(op, name) reflect::reflectOpName(name)<T_>(type_, #op)
 
 
+/******************************************************************************/
+/* REFLECT OP ARITY                                                           */
+/******************************************************************************/
+// Tells apart the operators that share a name by their number of arguments where
+// the object itself counts as an argument.
+
+#define reflectOpArityFn(op, name, arity)                               \
+    template<typename T, class = typename std::enable_if<               \
+        FunctionType<decltype(&T::op)>::ArgCount == arity>::type>       \
+    void reflectOpName(name) (Type* type, std::string name)             \
+    {                                                                   \
+        reflectFunction(type, name, &T::op);                            \
+    }                                                                   \
+                                                                        \
+    template<typename>                                                  \
+    void reflectOpName(name)(...) {}
+
+
 /******************************************************************************/
 /* REFLECT OP TYPED                                                           */
 /******************************************************************************/
@@ -118,7 +136,7 @@ reflectOpTypedFn(operator--, DecPost, T (T::*)(int))
 // \todo Add unary +/-
 reflectOpFn(operator+,  Plus)
 reflectOpFn(operator-,  Minus)
-reflectOpFn(operator*,  Mult)
+reflectOpArityFn(operator*, Mult, 2)
 reflectOpFn(operator/,  Div)
 reflectOpFn(operator%,  Mod)
 reflectOpFn(operator~,  BitNot)
@@ -188,7 +206,7 @@ reflectOpFn(operator>=, GEComp)
 
 reflectOpFn(operator(),  Function)
 reflectOpFn(operator[],  Array)
-reflectOpFn(operator*,   Indirection)
+reflectOpArityFn(operator*, Indirection, 1)
 
 #define reflectOpOther()                                \
     do {                                                \
-- 
2.43.0


From a83d41d4795c916c5a229e49c939bb5541a34e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 26/30] fix: classes with a move assignment but no move
 construction can be declared

The plumbing reflected T& operator=(T&&) for every class that is move
assignable.  What is passed for a T&& argument is moved out of the dynamic
value, so the function only compiles for classes that can be move constructed.
---
 src/dsl/plumbing.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsl/plumbing.h b/src/dsl/plumbing.h
index 83a20e4..491bcdd 100644
--- a/src/dsl/plumbing.h
+++ b/src/dsl/plumbing.h
@@ -175,7 +175,9 @@ void reflectCopyAssignOperator(...) {}
 /******************************************************************************/
 
 template<typename T,
-    class = typename std::enable_if<std::is_move_assignable<T>::value>::type>
+    class = typename std::enable_if<
+        std::is_move_assignable<T>::value &&
+        std::is_move_constructible<T>::value>::type>
 void reflectMoveAssignOperator(Type* type)
 {
     type->addFunction("operator=", [] (T& obj, T&& other) -> T& {
-- 
2.43.0


From 4ef70f37e5523e75065502471858686d13af8a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:46 +0000
Subject: [PATCH 27/30] fix: values refer to their object even if its class
 overloads operator&

---
 src/dsl/scope.h | 2 +-
 src/value.tcc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsl/scope.h b/src/dsl/scope.h
index eee6a1e..dd06ec2 100644
--- a/src/dsl/scope.h
+++ b/src/dsl/scope.h
@@ -84,6 +84,6 @@ void reflectGlobalVar(Scope*, const std::string& name, const T* var)
 }
 
 #define reflectGlobalVar(var)                   \
-    reflectGlobalVar(scope_, #var, &var)
+    reflectGlobalVar(scope_, #var, std::addressof(var))
 
 } // reflect
diff --git a/src/value.tcc b/src/value.tcc
index d72ec45..1886935 100644
--- a/src/value.tcc
+++ b/src/value.tcc
@@ -64,7 +64,7 @@ template<typename T>
 Value::
 Value(T&& value) :
     arg(Argument::make(std::forward<T>(value))),
-    value_((void*)&value) // cast-away any const
+    value_((void*)std::addressof(value)) // cast-away any const
 {
     if (refType() != RefType::RValue) return;
 
-- 
2.43.0


From 7ebceff23704aaf110cfefeaef4425cb281f550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 28/30] fix: v++ and v-- can be written with a dynamic value

The postfix operators were templates over their argument while C++ requires a
plain int, so that any use of them failed to compile.
---
 src/value.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/value.h b/src/value.h
index c837038..9092bc8 100644
--- a/src/value.h
+++ b/src/value.h
@@ -61,6 +61,14 @@ struct CleanValue
         return call<bool>(#op, std::forward<Arg>(arg)); \
     }
 
+// C++ only accepts an int, which it passes by value, as the argument of the
+// postfix operators.
+#define reflectValueOpPostfix(op)                       \
+    Value op(int arg) const                             \
+    {                                                   \
+        return call<Value>(#op, std::move(arg));        \
+    }
+
 #define reflectValueOpNary(op)                                  \
     template<typename... Args>                                  \
     Value op(Args&&... args) const                              \
@@ -133,9 +141,9 @@ struct Value
     reflectValueOpBinary(operator>>=)
 
     reflectValueOpUnary (operator++)
-    reflectValueOpBinary(operator++)
+    reflectValueOpPostfix(operator++)
     reflectValueOpUnary (operator--)
-    reflectValueOpBinary(operator--)
+    reflectValueOpPostfix(operator--)
 
     reflectValueOpBinary(operator+)
     reflectValueOpBinary(operator-)
-- 
2.43.0


From 2aa1285e5fa352842a25ab5dfba5ee4019b5dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:04 +0000
Subject: [PATCH 29/30] fix: refuse calls whose by-value or rvalue transfers
 are impossible before moving arguments or running the function

---
 src/function.cpp | 23 +++++++++++++++++++++++
 src/function.h   |  1 +
 src/function.tcc |  2 ++
 3 files changed, 26 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index c5ceda4..866c55d 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -109,6 +109,29 @@ test(const Argument& ret, const std::vector<Argument>& args) const
 
 
 
+// The casts refuse these as well but only after other arguments were moved from
+// or, for the return value, after the function was called.
+void
+Function::
+checkTransfers(const Argument& wanted) const
+{
+    auto check = [&] (const Argument& target) {
+        if (target.isVoid() || target.type() == type<Value>()) return;
+
+        if (target.refType() == RefType::Copy && !target.type()->isCopiable())
+            reflectError("<%s> is not copiable in call to <%s>",
+                    target.print(), signature(*this));
+
+        if (target.refType() == RefType::RValue && !target.type()->isMovable())
+            reflectError("<%s> is not movable in call to <%s>",
+                    target.print(), signature(*this));
+    };
+
+    for (const auto& arg : args) check(arg);
+    check(wanted);
+}
+
+
 /******************************************************************************/
 /* SIGNATURE                                                                  */
 /******************************************************************************/
diff --git a/src/function.h b/src/function.h
index 3753174..2e8ce08 100644
--- a/src/function.h
+++ b/src/function.h
@@ -61,6 +61,7 @@ private:
     Match testArguments(
             const std::vector<Argument>& value,
             const std::vector<Argument>& target) const;
+    void checkTransfers(const Argument& wanted) const;
 
     void* fn;
     std::string name_;
diff --git a/src/function.tcc b/src/function.tcc
index 5e5529d..6cdeb52 100644
--- a/src/function.tcc
+++ b/src/function.tcc
@@ -162,6 +162,8 @@ call(Args&&... args) const
                 signature<Ret(Args...)>(), signature(*this));
     }
 
+    checkTransfers(reflectReturn<Ret(Args...)>());
+
     typedef ValueFunction<sizeof...(Args)> Fn;
     Fn& typedFn = *static_cast<Fn*>(fn);
 
-- 
2.43.0


From 91838962d76b2cd9b6e285822266cd2c954ee4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:07 +0000
Subject: [PATCH 30/30] fix: flush the error message before aborting

---
 src/error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error.cpp b/src/error.cpp
index bd3714d..5c7e345 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -51,6 +51,7 @@ void verror(bool except, const char* file, int line, std::string msg)
     if (except) throw Error(msg);
 
     printf("%s\n", msg.c_str());
+    fflush(stdout);
     abort();
 }
 
-- 
2.43.0

