From 689a3504735bd79b37ee67d48835ad643dcc4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 01/40] fix: hold the registry lock while accessing the
 registry

The lock guards were unnamed temporaries which released the lock right away.
The lock is now recursive because loaders look up other types.
---
 src/registry.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 461b467..37ba55d 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -19,7 +19,9 @@ namespace {
 
 struct RegistryState
 {
-    std::mutex lock;
+    // Loaders look up other types which means that the lock can be re-acquired
+    // by the thread that's currently loading a type.
+    std::recursive_mutex lock;
     std::unordered_map<std::string, const Type*> types;
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
@@ -53,7 +55,7 @@ Registry::
 get(const std::string& id)
 {
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     const std::string* pId = &id;
 
@@ -109,7 +111,7 @@ add(const std::string& id, std::function<void(Type*)> loader)
         reflectError("can't add loader for<%s>", id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
@@ -124,7 +126,7 @@ alias(const std::string& id, const std::string& alias)
         reflectError("<%s> can't be aliased to <%s>", alias, id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
     if (!ret.second) {
-- 
2.43.0


From 7e6e82bef99fd2297a8423e135520fad9805355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 02/40] fix: don't skip the registration of a template type
 that's still in progress

The loaded flag was raised without synchronization and before the type was
registered so concurrent lookups could fail to find the type.
---
 src/dsl/template.h | 6 ++++--
 src/reflect.h      | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dsl/template.h b/src/dsl/template.h
index ab1184c..b1aa1e7 100644
--- a/src/dsl/template.h
+++ b/src/dsl/template.h
@@ -14,13 +14,15 @@ namespace reflect {
 /* REFLECT TEMPLATE LOADER                                                    */
 /******************************************************************************/
 
+// The flag is only raised once the type is registered so that no other thread can
+// skip the registration and then fail to find the type. Registering twice is fine.
 #define reflectTemplateLoader()                 \
     static void loader()                        \
     {                                           \
-        static bool loaded = false;             \
+        static std::atomic<bool> loaded(false); \
         if (loaded) return;                     \
-        loaded = true;                          \
         Registry::add<T_>();                    \
+        loaded = true;                          \
     }
 
 
diff --git a/src/reflect.h b/src/reflect.h
index 607a90c..744f36a 100644
--- a/src/reflect.h
+++ b/src/reflect.h
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <string>
 #include <memory>
 #include <functional>
-- 
2.43.0


From 0a5fdc79faefda9bc7895a9929621c05309e2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 03/40] fix: avoid a deadlock between the registry and the
 cached value type

A thread initializing the local static waits on the registry lock while the
thread which holds it can wait for the static's initialization guard.
---
 src/argument.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index e279d7b..2010dda 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -88,11 +88,27 @@ operator==(const Argument& other) const
         && isConst_ == other.isConst_;
 }
 
+namespace {
+
+// The guard of a dynamically initialized local static can't be held while
+// waiting on the registry because the registry calls isConvertibleTo while it's
+// loading types.
+const Type* getValueType()
+{
+    static std::atomic<const Type*> cache(nullptr);
+
+    const Type* type = cache;
+    if (!type) cache = type = reflect::type<Value>();
+    return type;
+}
+
+} // namespace anonymous
+
 Match
 Argument::
 isConvertibleTo(const Argument& target) const
 {
-    static const Type* valueType = reflect::type<Value>();
+    const Type* valueType = getValueType();
 
     if (*this == target) return Match::Exact;
 
-- 
2.43.0


From 368465f063bc30e7e0084c41527fa229013370ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 04/40] fix: format error messages that don't fit in the buffer

Messages over 1022 bytes were read past the end of the buffer.
---
 src/error.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7edf5b..252b46e 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -21,10 +21,24 @@ std::string verrorFormat(const char* fmt, ...)
     std::va_list args;
     va_start(args, fmt);
 
-    char buf[1024];
-    int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, args);
+    std::va_list copy;
+    va_copy(copy, args);
 
-    return std::string(buf, n);
+    char buf[1024];
+    int n = std::vsnprintf(buf, sizeof(buf), fmt, args);
+    va_end(args);
+
+    std::string result;
+    if (n >= 0 && size_t(n) < sizeof(buf)) result.assign(buf, n);
+    else if (n >= 0) {
+        // vsnprintf always writes a null terminator.
+        result.resize(size_t(n) + 1);
+        std::vsnprintf(&result[0], result.size(), fmt, copy);
+        result.resize(n);
+    }
+    va_end(copy);
+
+    return result;
 }
 
 
-- 
2.43.0


From 713bd00ce283789092360d786ca31c8490ab73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 05/40] fix: initialize the reference type of default arguments

The reference type of empty values was never set.
---
 src/argument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 2010dda..d3b3369 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -41,7 +41,9 @@ std::ostream& operator<<(std::ostream& stream, Match match)
 /******************************************************************************/
 
 Argument::
-Argument() : type_(reflect::type<void>()), isConst_(false) {}
+Argument() :
+    type_(reflect::type<void>()), refType_(RefType::Copy), isConst_(false)
+{}
 
 Argument::
 Argument(const Type* type, RefType refType, bool isConst) :
-- 
2.43.0


From 135132d94958b991f0f8862e2a745e2b5f4af896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 06/40] fix: free the old function when move assigning a
 Function

The functor held by the overwritten Function was leaked.
---
 src/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/function.cpp b/src/function.cpp
index 0c2a826..c5ceda4 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -32,6 +32,7 @@ operator=(Function&& other) noexcept
 {
     if (this == &other) return *this;
 
+    if (fn) freeValueFunction(fn);
     fn = other.fn;
     other.fn = nullptr;
 
-- 
2.43.0


From c29af34fbc5704f93afebd9ef81bbea1f658f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 07/40] fix: don't fail on or create missing scopes when
 querying functions

hasFunction raised an error when the scope doesn't exist and looking up a
function in a missing scope created the scope before failing.
---
 src/scope.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8850893..512c029 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -345,8 +345,10 @@ hasFunction(const std::string& name) const
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->hasFunction(split.first);
+    if (!split.second.empty()) {
+        return hasScope(split.second)
+            && scope(split.second)->hasFunction(split.first);
+    }
 
     auto it = functions_.find(split.first);
     return it != functions_.end();
@@ -358,8 +360,11 @@ function(const std::string& name)
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->function(split.first);
+    // Looking up a function shouldn't create any missing scopes.
+    if (!split.second.empty()) {
+        const Scope* self = this;
+        return self->scope(split.second)->function(split.first);
+    }
 
     auto it = functions_.find(split.first);
     if (it == functions_.end())
-- 
2.43.0


From e5ee46a2b46c9f1f08de43965e9e5d961a3aaff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 08/40] fix: don't abort when a json token doesn't have the
 expected type

The mismatch was recorded as a reader error but the value of the token was
then accessed anyway which aborts.
---
 src/utils/json/parser.tcc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f2f99b3..c16a81f 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -21,12 +21,14 @@ void parseNull(Reader& reader)
 
 bool parseBool(Reader& reader)
 {
-    return reader.expectToken(Token::Bool).asBool();
+    Token token = reader.expectToken(Token::Bool);
+    return token.type() == Token::Bool ? token.asBool() : false;
 }
 
 int64_t parseInt(Reader& reader)
 {
-    return reader.expectToken(Token::Int).asInt();
+    Token token = reader.expectToken(Token::Int);
+    return token.type() == Token::Int ? token.asInt() : 0;
 }
 
 double parseFloat(Reader& reader)
@@ -34,14 +36,15 @@ double parseFloat(Reader& reader)
     Token token = reader.nextToken();
 
     if (token.type() == Token::Int);
-    else reader.assertToken(token, Token::Float);
+    else if (!reader.assertToken(token, Token::Float)) return 0;
 
     return token.asFloat();
 }
 
 std::string parseString(Reader& reader)
 {
-    return reader.expectToken(Token::String).asString();
+    Token token = reader.expectToken(Token::String);
+    return token.type() == Token::String ? token.asString() : std::string();
 }
 
 template<typename Fn>
@@ -49,7 +52,7 @@ void parseObject(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ObjectStart);
+    if (!reader.assertToken(token, Token::ObjectStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ObjectEnd) {
@@ -59,8 +62,12 @@ void parseObject(Reader& reader, const Fn& fn)
 
     while (reader) {
         token = reader.expectToken(Token::String);
+        if (token.type() != Token::String) return;
+
         const std::string& key = token.asString();
+
         token = reader.expectToken(Token::KeySeparator);
+        if (token.type() != Token::KeySeparator) return;
 
         fn(key);
 
@@ -75,7 +82,7 @@ void parseArray(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ArrayStart);
+    if (!reader.assertToken(token, Token::ArrayStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ArrayEnd) {
-- 
2.43.0


From d308856afe9dc902d0cd9adb46606254b5967ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 09/40] fix: print the token in the json skip error

The token itself was handed over to a printf %s.
---
 src/utils/json/parser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index c16a81f..cd29c12 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -124,7 +124,7 @@ void skip(Reader& reader)
         break;
 
     default:
-        reader.error("unable to skip token %s", token);
+        reader.error("unable to skip token %s", token.print());
         break;
 
     }
-- 
2.43.0


From e356a135c056744d9aa2f307e839da2c98286494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 10/40] fix: report json objects and arrays that end right
 after they're opened

A stream that ends after a [ or a { was accepted as an empty container.
---
 src/utils/json/parser.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index cd29c12..15f1860 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -75,6 +75,8 @@ void parseObject(Reader& reader, const Fn& fn)
         if (token.type() == Token::ObjectEnd) return;
         reader.assertToken(token, Token::Separator);
     }
+
+    reader.error("unexpected end of object");
 }
 
 template<typename Fn>
@@ -97,6 +99,8 @@ void parseArray(Reader& reader, const Fn& fn)
         if (token.type() == Token::ArrayEnd) return;
         reader.assertToken(token, Token::Separator);
     }
+
+    reader.error("unexpected end of array");
 }
 
 
-- 
2.43.0


From 6b0136224cb2a66069c4b5e35d0a20405fbd09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 11/40] fix: skip numbers at the end of a json stream

Reading a number up to the end of the stream invalidates the stream which made
skip leave the number behind.
---
 src/utils/json/parser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 15f1860..242e1b5 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -107,7 +107,7 @@ void parseArray(Reader& reader, const Fn& fn)
 void skip(Reader& reader)
 {
     Token token = reader.peekToken();
-    if (!reader) return;
+    if (reader.error()) return;
 
     switch (token.type()) {
 
-- 
2.43.0


From 9d6de27011eb9b182bf5a3acd2cf3209468c69f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 12/40] fix: allow json floats to be written without a fraction
 or an exponent

parseFloat accepts int tokens but then aborts on them. This also means that
floats with an integral value couldn't be read back.
---
 src/utils/json/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 64dccad..e3db0b2 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -49,7 +49,7 @@ double
 Token::
 asFloat() const
 {
-    if (type_ != Float)
+    if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
     return std::stod(*value_);
-- 
2.43.0


From d7d423b0cf13af2498ffa0748271ffe66c4020fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 13/40] fix: report malformed and out of range json numbers as
 reader errors

The conversion functions of the standard library throw on numbers without any
digits and on numbers which don't fit in the output type.
---
 src/utils/json/json.cpp   |  3 +++
 src/utils/json/parser.tcc | 14 +++++++++++--
 src/utils/json/token.cpp  | 44 ++++++++++++++++++++++++++++++++-------
 src/utils/json/token.h    |  4 ++++
 4 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/utils/json/json.cpp b/src/utils/json/json.cpp
index 11c5e3a..89e6266 100644
--- a/src/utils/json/json.cpp
+++ b/src/utils/json/json.cpp
@@ -14,6 +14,9 @@
 #include "dsl/all.h"
 #include "utils.h"
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <mutex>
 #include <algorithm>
 
diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 242e1b5..7c7a7ac 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -28,7 +28,13 @@ bool parseBool(Reader& reader)
 int64_t parseInt(Reader& reader)
 {
     Token token = reader.expectToken(Token::Int);
-    return token.type() == Token::Int ? token.asInt() : 0;
+    if (token.type() != Token::Int) return 0;
+
+    int64_t value;
+    if (token.toInt(value)) return value;
+
+    reader.error("out of range int %s", token.print());
+    return 0;
 }
 
 double parseFloat(Reader& reader)
@@ -38,7 +44,11 @@ double parseFloat(Reader& reader)
     if (token.type() == Token::Int);
     else if (!reader.assertToken(token, Token::Float)) return 0;
 
-    return token.asFloat();
+    double value;
+    if (token.toFloat(value)) return value;
+
+    reader.error("out of range float %s", token.print());
+    return 0;
 }
 
 std::string parseString(Reader& reader)
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index e3db0b2..6c7e298 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -42,7 +42,20 @@ asInt() const
     if (type_ != Int)
         reflectError("invalid conversion of token %s to <int>", print());
 
-    return std::stol(*value_);
+    int64_t value;
+    if (!toInt(value))
+        reflectError("out of range conversion of token %s to <int>", print());
+
+    return value;
+}
+
+bool
+Token::
+toInt(int64_t& value) const
+{
+    errno = 0;
+    value = std::strtoll(value_->c_str(), nullptr, 10);
+    return errno != ERANGE;
 }
 
 double
@@ -52,7 +65,20 @@ asFloat() const
     if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
-    return std::stod(*value_);
+    double value;
+    if (!toFloat(value))
+        reflectError("out of range conversion of token %s to <float>", print());
+
+    return value;
+}
+
+bool
+Token::
+toFloat(double& value) const
+{
+    // Underflows are also reported as errors by strtod but they're harmless.
+    value = std::strtod(value_->c_str(), nullptr);
+    return value != HUGE_VAL && value != -HUGE_VAL;
 }
 
 const std::string&
@@ -287,9 +313,13 @@ Token::Type readNumber(Reader& reader, char c)
     reader.resetBuffer();
     reader.save(c); // can be either - or [0-9].
 
-    auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek()))
+    auto readDigits = [&] (bool required) {
+        while (reader && std::isdigit(c = reader.peek())) {
             reader.save(reader.pop());
+            required = false;
+        }
+
+        if (required) reader.error("missing digits in number");
     };
 
     auto readChar = [&] (char c) {
@@ -307,16 +337,16 @@ Token::Type readNumber(Reader& reader, char c)
         return true;
     };
 
-    readDigits();
+    readDigits(c == '-');
     if (readChar('.')) {
         type = Token::Float;
-        readDigits();
+        readDigits(true);
     }
 
     if (readChars('e', 'E')) {
         type = Token::Float;
         readChars('+', '-');
-        readDigits();
+        readDigits(true);
     }
 
     return type;
diff --git a/src/utils/json/token.h b/src/utils/json/token.h
index 417468e..4166d54 100644
--- a/src/utils/json/token.h
+++ b/src/utils/json/token.h
@@ -39,6 +39,10 @@ struct Token
     double asFloat() const;
     const std::string& asString() const;
 
+    // Returns false if the number doesn't fit in the output type.
+    bool toInt(int64_t& value) const;
+    bool toFloat(double& value) const;
+
     std::string print() const;
 
 private:
-- 
2.43.0


From 64715a33ac8bf359efbc4b11c88ff2ec99eb90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 14/40] fix: stop decoding UTF-8 on an invalid header byte

The number of bytes was still used after the error which leads to undefined
shifts and to the undefined leading zero count of 0 for the 0xFF byte.
---
 src/utils/json/format.cpp | 20 ++++++++++++++++----
 src/utils/json/token.cpp  |  5 ++++-
 src/utils/json/utils.h    |  6 +++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9c8f743..33016f4 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -56,8 +56,14 @@ void formatFloat(Writer& writer, double value)
 size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return i;
+    }
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
@@ -76,8 +82,14 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 size_t readUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return i;
+    }
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 6c7e298..1fdb845 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -245,7 +245,10 @@ void validateUnicode(Reader& reader, char c)
     reader.save(c);
 
     size_t bytes = clz(~c);
-    if (bytes > 4 || bytes < 2) reader.error("invalid UTF-8 header: %x", c);
+    if (bytes > 4 || bytes < 2) {
+        reader.error("invalid UTF-8 header: %x", c);
+        return;
+    }
 
     uint32_t mask = (1 << (7 - bytes)) - 1;
     uint32_t code = uint32_t(c) & mask;
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 6c46988..c6aac5c 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -12,7 +12,11 @@ namespace json {
 /* BIT OPS                                                                    */
 /******************************************************************************/
 
-size_t clz(char value) { return __builtin_clz(uint32_t(value) << 24); }
+// The builtin is undefined for 0.
+size_t clz(char value)
+{
+    return value ? __builtin_clz(uint32_t(value) << 24) : 8;
+}
 
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 0cc2b84e7c6f89ea6310af102639d61413b199f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 15/40] fix: escape and unescape code points past 0xFFFF using
 surrogate pairs

These code points were escaped using 5 hex digits which reads back as a
different string and surrogate pairs were unescaped to invalid UTF-8. Encodings
which have no escape sequence are now reported as errors.
---
 src/utils/json/format.cpp | 15 ++++++++++++++-
 src/utils/json/token.cpp  | 23 ++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 33016f4..49ae096 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -74,7 +74,20 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
         code = (code << 6) | (value[i] & 0x3F);
     }
 
-    format(writer, "\\u%04x", code);
+    bool valid = true;
+    switch (bytes) {
+    case 4: valid = code > 0xFFFF && code <= 0x10FFFF; break;
+    case 3: valid = code > 0x7FF && (code < 0xD800 || code > 0xDFFF); break;
+    case 2: valid = code > 0x7F; break;
+    }
+    if (!valid) writer.error("invalid UTF-8 encoding");
+
+    if (code <= 0xFFFF) format(writer, "\\u%04x", code);
+    else {
+        code -= 0x10000;
+        format(writer, "\\u%04x", 0xD800 | ((code >> 10) & 0x3FF));
+        format(writer, "\\u%04x", 0xDC00 | (code & 0x3FF));
+    }
 
     return i - 1;
 }
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 1fdb845..803cf45 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -170,7 +170,7 @@ void readLiteral(Reader& reader, const char* literal)
     if (*l) reader.error("expected literal <%s>", literal);
 }
 
-void unescapeUnicode(Reader& reader)
+uint32_t readCodeUnit(Reader& reader)
 {
     uint32_t code = 0;
 
@@ -187,6 +187,27 @@ void unescapeUnicode(Reader& reader)
     }
 
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
+
+    return code;
+}
+
+void unescapeUnicode(Reader& reader)
+{
+    uint32_t code = readCodeUnit(reader);
+
+    // Code points past 0xFFFF are escaped using a pair of surrogates.
+    if (reader && code >= 0xD800 && code <= 0xDFFF) {
+        uint32_t low = 0;
+
+        if (reader.pop() == '\\' && reader.pop() == 'u')
+            low = readCodeUnit(reader);
+
+        if (code > 0xDBFF || low < 0xDC00 || low > 0xDFFF)
+            reader.error("unpaired surrogate in unicode code point");
+
+        code = 0x10000 + ((code & 0x3FF) << 10) + (low & 0x3FF);
+    }
+
     if (!reader) return;
 
     auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
-- 
2.43.0


From 7b2de02b197980ec51ca66b1c487827e242dd732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 16/40] fix: indent deeply nested json past the size of the
 spaces buffer

---
 src/utils/json/writer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 9cd1c5e..1c678b3 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -26,7 +26,12 @@ newline()
     if (!pretty()) return;
 
     push("\n");
-    push(spaces.c_str(), indent_ * 4);
+
+    for (size_t n = indent_ * 4; n > 0;) {
+        size_t chunk = std::min(n, spaces.size());
+        push(spaces.c_str(), chunk);
+        n -= chunk;
+    }
 }
 
 } // namespace json
-- 
2.43.0


From 139e603b74a513ed17f3a52b77d736e093b43a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 17/40] fix: print json values to streams

---
 src/utils/json/printer.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index acf7704..fe23d46 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -114,7 +114,8 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return parse(stream, value);
+    print(writer, value);
+    return writer.error();
 }
 
 template<typename T>
-- 
2.43.0


From 9e2e50312b04c97f56f3ed308abb088db2a7fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 18/40] fix: report nan and infinite floats as json writer
 errors

---
 src/utils/json/format.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 49ae096..9e598f7 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -50,6 +50,11 @@ void formatInt(Writer& writer, int64_t value)
 
 void formatFloat(Writer& writer, double value)
 {
+    if (!std::isfinite(value)) {
+        writer.error("<%g> can't be represented in json", value);
+        return;
+    }
+
     format(writer, "%1.12g", value);
 }
 
-- 
2.43.0


From 1928df8236e800f6c8eaad850947a32b97827269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 19/40] fix: don't abort when reading null into a raw pointer

---
 src/utils/json/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index f14d695..da8cb8b 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -104,7 +104,7 @@ struct PointerParser : public Parser
             reader.nextToken();
 
             if (isSmartPtr) ptr.call<void>("reset");
-            else ptr = inner.type->construct();
+            else ptr.assign(ptr.type()->construct());
 
             return;
         }
-- 
2.43.0


From 309b3de5177c62dd58f6ae1272b68124a56b2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 20/40] fix: detect duplicate json aliases while printing

---
 src/utils/json/printer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index e8fa643..ab28d59 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -250,8 +250,8 @@ struct ObjectPrinter : public Printer
                 isSkipEmpty = traits.skipEmpty;
             }
 
-            if (fields.count(key))
-                reflectError("duplicate json key <%s> in <%s>", key, type->id());
+            if (keys.count(alias))
+                reflectError("duplicate json key <%s> in <%s>", alias, type->id());
 
             keys[alias] = key;
             sortedKeys.push_back(alias);
-- 
2.43.0


From 24de93b4b317b598fe4f46eca0608457b0063792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 21/40] fix: count the lines that end in a json comment

---
 src/utils/json/token.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 803cf45..4a75ca3 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -151,6 +151,7 @@ char nextChar(Reader& reader)
                 reader.error("comments are not allowed");
 
             while (reader && (c = reader.pop()) != '\n') continue;
+            if (c == '\n') reader.newline();
             continue;
         }
 
-- 
2.43.0


From d86cfc94c7cb0331bb08473728d7a017b423ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 22/40] fix: call functions whose parameters are references to
 values

Such functions accept any argument according to the matching rules but the call
itself always failed because the content of the value was cast to a Value.
---
 src/value_function.h | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/value_function.h b/src/value_function.h
index 28fb062..c5f3f29 100644
--- a/src/value_function.h
+++ b/src/value_function.h
@@ -56,6 +56,31 @@ struct ValueFunction :
 {};
 
 
+/******************************************************************************/
+/* CAST ARG                                                                   */
+/******************************************************************************/
+/** Parameters which are Values, or references to Values, are handed the Value
+    itself and not what it contains.
+ */
+
+template<typename Arg>
+Arg castArg(Value& value, std::true_type) { return static_cast<Arg>(value); }
+
+template<typename Arg>
+auto castArg(Value& value, std::false_type) -> decltype(cast<Arg>(value))
+{
+    return cast<Arg>(value);
+}
+
+template<typename Arg>
+auto castArg(Value& value) ->
+    decltype(castArg<Arg>(value, std::is_same<typename std::decay<Arg>::type, Value>()))
+{
+    typedef std::is_same<typename std::decay<Arg>::type, Value> IsValue;
+    return castArg<Arg>(value, IsValue());
+}
+
+
 /******************************************************************************/
 /* VALUE FUNCTION IMPL                                                        */
 /******************************************************************************/
@@ -105,7 +130,7 @@ private:
     template<typename... Args>
     Ret call(GlobalFunction, TypeVector<Args...>, Values&... values)
     {
-        return (*fn)(cast<Args>(values)...);
+        return (*fn)(castArg<Args>(values)...);
     }
 
     template<typename Obj, typename... Args, typename... Rest>
@@ -113,7 +138,7 @@ private:
             MemberFunction, TypeVector<Obj, Args...>,
             Value& obj, Rest&... values)
     {
-        return (cast<Obj&>(obj).*fn)(cast<Args>(values)...);
+        return (cast<Obj&>(obj).*fn)(castArg<Args>(values)...);
     }
 
     template<typename Obj, typename... Args, typename... Rest>
@@ -121,13 +146,13 @@ private:
             MemberFunction, TypeVector<const Obj, Args...>,
             Value& obj, Rest&... values)
     {
-        return (cast<const Obj&>(obj).*fn)(cast<Args>(values)...);
+        return (cast<const Obj&>(obj).*fn)(castArg<Args>(values)...);
     }
 
     template<typename... Args>
     Ret call(FunctorFunction, TypeVector<Args...>, Values&... values)
     {
-        return fn(cast<Args>(values)...);
+        return fn(castArg<Args>(values)...);
     }
 
     Fn fn;
-- 
2.43.0


From 57eb8f6ccb6e5101af29106cce1e5671f544681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 23/40] fix: a move that fails leaves the value as it was

Moving out of a const value whose type can't be copied raised an error after the
value was emptied.
---
 src/value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value.cpp b/src/value.cpp
index 5e0c84d..6ac2a20 100644
--- a/src/value.cpp
+++ b/src/value.cpp
@@ -100,9 +100,9 @@ move()
     if (!type()->isMovable())
         reflectError("<%s> is not movable", type()->id());
 
-    Value arg = rvalue();
+    Value result = type()->construct(rvalue());
     *this = Value();
-    return arg.type()->construct(arg);
+    return result;
 }
 
 Value
-- 
2.43.0


From aa7bd05488153ffdbb76487c4da90d2ade7b9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 24/40] fix: copying a value made an rvalue moved its contents
 out

---
 src/value.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value.cpp b/src/value.cpp
index 6ac2a20..fb306a8 100644
--- a/src/value.cpp
+++ b/src/value.cpp
@@ -90,7 +90,11 @@ copy() const
     if (!type()->isCopiable())
         reflectError("<%s> is not copiable", type()->id());
 
-    return type()->construct(*this);
+    // An rvalue would otherwise pick the move constructor and empty the source.
+    Value source(*this);
+    source.arg = Argument(type(), RefType::LValue, true);
+
+    return type()->construct(source);
 }
 
 Value
-- 
2.43.0


From 892ce7ab8dbcce4a4df4676eec0bce7ba5d402e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 25/40] fix: make the postfix increment and decrement of a
 value compile

---
 src/value.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/value.h b/src/value.h
index c837038..a6aac1f 100644
--- a/src/value.h
+++ b/src/value.h
@@ -54,6 +54,13 @@ struct CleanValue
         return call<Value>(#op, std::forward<Arg>(arg));        \
     }
 
+// The postfix operators must take a plain int.
+#define reflectValueOpPostfix(op)                       \
+    Value op(int arg) const                             \
+    {                                                   \
+        return call<Value>(#op, std::move(arg));        \
+    }
+
 #define reflectValueOpBool(op)                          \
     template<typename Arg>                              \
     bool op(Arg&& arg) const                            \
@@ -132,10 +139,10 @@ struct Value
     reflectValueOpBinary(operator<<=)
     reflectValueOpBinary(operator>>=)
 
-    reflectValueOpUnary (operator++)
-    reflectValueOpBinary(operator++)
-    reflectValueOpUnary (operator--)
-    reflectValueOpBinary(operator--)
+    reflectValueOpUnary  (operator++)
+    reflectValueOpPostfix(operator++)
+    reflectValueOpUnary  (operator--)
+    reflectValueOpPostfix(operator--)
 
     reflectValueOpBinary(operator+)
     reflectValueOpBinary(operator-)
-- 
2.43.0


From 3be981ebede5f50c2862f1d4c7bdad72d06e92e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 26/40] fix: describe operator* once when all the operators are
 described

---
 src/dsl/operators.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 8ebed0c..9032de1 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -37,6 +37,25 @@ namespace reflect {
 #define reflectOp(op, name) reflect::reflectOpName(name)<T_>(type_, #op)
 
 
+/******************************************************************************/
+/* REFLECT OP ARITY                                                           */
+/******************************************************************************/
+// Tells apart the unary and the binary operators that share a name. The arity
+// includes the object.
+
+#define reflectOpArityFn(op, name, arity)                               \
+    template<typename T,                                                \
+        class = typename std::enable_if<                                \
+            FunctionType<decltype(&T::op)>::ArgCount == arity>::type>   \
+    void reflectOpName(name) (Type* type, std::string name)             \
+    {                                                                   \
+        reflectFunction(type, name, &T::op);                            \
+    }                                                                   \
+                                                                        \
+    template<typename>                                                  \
+    void reflectOpName(name)(...) {}
+
+
 /******************************************************************************/
 /* REFLECT OP TYPED                                                           */
 /******************************************************************************/
@@ -118,7 +137,7 @@ reflectOpTypedFn(operator--, DecPost, T (T::*)(int))
 // \todo Add unary +/-
 reflectOpFn(operator+,  Plus)
 reflectOpFn(operator-,  Minus)
-reflectOpFn(operator*,  Mult)
+reflectOpArityFn(operator*, Mult, 2)
 reflectOpFn(operator/,  Div)
 reflectOpFn(operator%,  Mod)
 reflectOpFn(operator~,  BitNot)
@@ -188,7 +207,7 @@ reflectOpFn(operator>=, GEComp)
 
 reflectOpFn(operator(),  Function)
 reflectOpFn(operator[],  Array)
-reflectOpFn(operator*,   Indirection)
+reflectOpArityFn(operator*, Indirection, 1)
 
 #define reflectOpOther()                                \
     do {                                                \
-- 
2.43.0


From 3138b6a462b377484012c6964be48773470cdb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 27/40] fix: don't create the scopes of a malformed name

---
 src/scope.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/scope.cpp b/src/scope.cpp
index 512c029..8892e37 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -81,6 +81,17 @@ join(const std::string& head, const std::string& tail)
 }
 
 
+namespace {
+
+// Raises an error if any part of the name is malformed.
+void checkName(std::string name)
+{
+    while (!name.empty()) name = Scope::head(name).second;
+}
+
+} // namespace anonymous
+
+
 /******************************************************************************/
 /* BASICS                                                                     */
 /******************************************************************************/
@@ -192,6 +203,7 @@ scope(const std::string& name)
 
     auto it = scopes_.find(split.first);
     if (it == scopes_.end()) {
+        checkName(split.second);
         std::unique_ptr<Scope> scope(new Scope(split.first, this));
         it = scopes_.emplace(split.first, scope.release()).first;
     }
@@ -296,6 +308,7 @@ addType(const std::string& name)
     if (fnIt != functions_.end())
         reflectError("<%s> conflicts with function in <%s>", name, id());
 
+    checkName(split.second);
     scope(split.first)->addType(split.second);
 }
 
-- 
2.43.0


From d4ae8088aaaeae68484cc1cb4f08b3188afa9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 28/40] fix: don't keep the loader of a type whose name is
 rejected

---
 src/registry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 37ba55d..921f342 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -113,9 +113,10 @@ add(const std::string& id, std::function<void(Type*)> loader)
     auto& registry = getRegistry();
     std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
+    registry.scopes.addType(id);
+
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
-    registry.scopes.addType(id);
 }
 
 void
-- 
2.43.0


From 972f7af7279127956d49a24160750d8e21d76a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 29/40] fix: don't create nested scopes while looking them up

---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8892e37..3e8286c 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -192,7 +192,9 @@ scope(const std::string& name) const
     if (it == scopes_.end())
         reflectError("<%s> doesn't have scope <%s>", name_, name);
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    // Must stay const or the missing scopes would be created.
+    const Scope* scope = it->second;
+    return !split.second.empty() ? scope->scope(split.second) : it->second;
 }
 
 Scope*
-- 
2.43.0


From e37d2784378093cee4ad6acd0f1a8fc9e9ff6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 30/40] fix: don't convert arguments which are already of the
 right type

---
 src/argument.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index d3b3369..00754b5 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -119,7 +119,10 @@ isConvertibleTo(const Argument& target) const
 
     bool isExact = false;
 
-    if (type()->hasConverter(target.type())) {
+    // Conversions are never used to get to the type itself or to its parents.
+    bool isChild = type()->isChildOf(target.type());
+
+    if (!isChild && type()->hasConverter(target.type())) {
         if (target.refType() != RefType::LValue) return Match::Partial;
         return Match::None;
     }
@@ -140,7 +143,7 @@ isConvertibleTo(const Argument& target) const
         if (refType() != RefType::RValue) return Match::None;
     }
 
-    if (!target.type()->isParentOf(type())) return Match::None;
+    if (!isChild) return Match::None;
 
     if (isExact) return Match::Exact;
     if (isConst() == target.isConst() && refType() == target.refType())
-- 
2.43.0


From 11f09b9b6af9233cc4a7e0cbf935f932533081ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 31/40] fix: arrays were taken for the pointers they decay to

---
 src/argument.tcc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/argument.tcc b/src/argument.tcc
index 5ab5c66..fe3d1be 100644
--- a/src/argument.tcc
+++ b/src/argument.tcc
@@ -35,6 +35,13 @@ make(T&& value)
     arg.type_ = reflect::type<T>();
     arg.refType_ = makeRefType(std::forward<T>(value));
     arg.isConst_ = reflect::isConst(std::forward<T>(value));
+
+    // Arrays are passed as a temporary pointer to their first element.
+    if (std::is_array<typename std::remove_reference<T>::type>::value) {
+        arg.refType_ = RefType::RValue;
+        arg.isConst_ = false;
+    }
+
     return arg;
 }
 
-- 
2.43.0


From a1ed3a9461e43549ac3c162b334cbb16464a1d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 32/40] fix: a type refused by JSON left half-initialised
 parsers and printers behind

---
 src/utils/json/parser.cpp  | 25 +++++++++++++++++++++++--
 src/utils/json/printer.cpp | 25 +++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index da8cb8b..2f9296d 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -331,9 +331,17 @@ struct ValueParser : public Parser
 /* GET PARSER                                                                 */
 /******************************************************************************/
 
+typedef std::unordered_map<const Type*, const Parser*> ParsersT;
+
+ParsersT& getParsers()
+{
+    static ParsersT parsers;
+    return parsers;
+}
+
 const Parser* getParser(const Type* type)
 {
-    static std::unordered_map<const Type*, const Parser*> parsers;
+    auto& parsers = getParsers();
 
     auto it = parsers.find(type);
     if (it != parsers.end()) return it->second;
@@ -365,7 +373,20 @@ const Parser* getParserLocked(const Type* type)
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-    return getParser(type);
+    auto& parsers = getParsers();
+
+    auto it = parsers.find(type);
+    if (it != parsers.end()) return it->second;
+
+    // A rejected type must not leave half-initialized parsers behind.
+    ParsersT before = parsers;
+    try { return getParser(type); }
+    catch (...) {
+        std::swap(before, parsers);
+        for (const auto& item : before)
+            if (!parsers.count(item.first)) delete item.second;
+        throw;
+    }
 }
 
 } // namespace anonymous
diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index ab28d59..1e9ec01 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -338,9 +338,17 @@ private:
 /* GET PRINTER                                                                */
 /******************************************************************************/
 
+typedef std::unordered_map<const Type*, const Printer*> PrintersT;
+
+PrintersT& getPrinters()
+{
+    static PrintersT printers;
+    return printers;
+}
+
 const Printer* getPrinter(const Type* type)
 {
-    static std::unordered_map<const Type*, const Printer*> printers;
+    auto& printers = getPrinters();
 
     auto it = printers.find(type);
     if (it != printers.end()) return it->second;
@@ -373,7 +381,20 @@ const Printer* getPrinterLocked(const Type* type)
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-    return getPrinter(type);
+    auto& printers = getPrinters();
+
+    auto it = printers.find(type);
+    if (it != printers.end()) return it->second;
+
+    // A rejected type must not leave half-initialized printers behind.
+    PrintersT before = printers;
+    try { return getPrinter(type); }
+    catch (...) {
+        std::swap(before, printers);
+        for (const auto& item : before)
+            if (!printers.count(item.first)) delete item.second;
+        throw;
+    }
 }
 
 } // namespace anonymous
-- 
2.43.0


From 0802bfcde805e017048c6abfea81d90ae3f9ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 33/40] fix: report json nested past what the stack can take as
 a reader error

---
 src/utils/json/parser.tcc | 17 +++++++++++++++++
 src/utils/json/reader.cpp | 10 ++++++++++
 src/utils/json/reader.h   |  9 ++++++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 7c7a7ac..1e7eb92 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -57,6 +57,17 @@ std::string parseString(Reader& reader)
     return token.type() == Token::String ? token.asString() : std::string();
 }
 
+struct ParserNesting
+{
+    ParserNesting(Reader& reader) : reader(reader), ok(reader.enter()) {}
+    ~ParserNesting() { reader.leave(); }
+    operator bool() const { return ok; }
+
+private:
+    Reader& reader;
+    bool ok;
+};
+
 template<typename Fn>
 void parseObject(Reader& reader, const Fn& fn)
 {
@@ -64,6 +75,9 @@ void parseObject(Reader& reader, const Fn& fn)
     if (token.type() == Token::Null) return;
     if (!reader.assertToken(token, Token::ObjectStart)) return;
 
+    ParserNesting nesting(reader);
+    if (!nesting) return;
+
     token = reader.peekToken();
     if (token.type() == Token::ObjectEnd) {
         reader.expectToken(Token::ObjectEnd);
@@ -96,6 +110,9 @@ void parseArray(Reader& reader, const Fn& fn)
     if (token.type() == Token::Null) return;
     if (!reader.assertToken(token, Token::ArrayStart)) return;
 
+    ParserNesting nesting(reader);
+    if (!nesting) return;
+
     token = reader.peekToken();
     if (token.type() == Token::ArrayEnd) {
         reader.expectToken(Token::ArrayEnd);
diff --git a/src/utils/json/reader.cpp b/src/utils/json/reader.cpp
index 1f4c4d6..37a4fe6 100644
--- a/src/utils/json/reader.cpp
+++ b/src/utils/json/reader.cpp
@@ -52,6 +52,16 @@ assertToken(const Token& token, Token::Type exp)
     return false;
 }
 
+bool
+Reader::
+enter()
+{
+    if (++depth_ <= MaxDepth) return true;
+
+    error("too many nested values");
+    return false;
+}
+
 } // namespace json
 } // namespace reflect
 
diff --git a/src/utils/json/reader.h b/src/utils/json/reader.h
index 75e229a..5c03cc2 100644
--- a/src/utils/json/reader.h
+++ b/src/utils/json/reader.h
@@ -26,9 +26,12 @@ struct Reader
         Default = UnescapeUnicode | ValidateUnicode,
     };
 
+    // Values are parsed recursively so the nesting is bounded by the stack.
+    enum { MaxDepth = 1000 };
+
     Reader(std::istream& stream, Options options = Default) :
         stream(stream),
-        pos_(1), line_(1),
+        pos_(1), line_(1), depth_(0),
         options(options)
     {
         buffer_.reserve(128);
@@ -57,6 +60,9 @@ struct Reader
     size_t line() const { return line_; }
     void newline() { pos_ = 1; line_++; }
 
+    bool enter();
+    void leave() { depth_--; }
+
     bool allowComments() const { return options & AllowComments; }
     bool unescapeUnicode() const { return options & UnescapeUnicode; }
     bool validateUnicode() const { return options & ValidateUnicode; }
@@ -68,6 +74,7 @@ private:
 
     size_t pos_;
     size_t line_;
+    size_t depth_;
 
     Options options;
 
-- 
2.43.0


From 1e070a1bafb6a534a6b77dfa8d6a9fd8ae3415e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 34/40] fix: report objects that contain themselves as a json
 writer error

---
 src/utils/json/printer.tcc | 17 +++++++++++++++++
 src/utils/json/writer.cpp  | 10 ++++++++++
 src/utils/json/writer.h    |  9 ++++++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index fe23d46..955488c 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -11,6 +11,17 @@ namespace json {
 /* GENERIC PRINTER                                                            */
 /******************************************************************************/
 
+struct PrinterNesting
+{
+    PrinterNesting(Writer& writer) : writer(writer), ok(writer.enter()) {}
+    ~PrinterNesting() { writer.leave(); }
+    operator bool() const { return ok; }
+
+private:
+    Writer& writer;
+    bool ok;
+};
+
 template<typename Keys, typename Fn>
 void printObject(Writer& writer, const Keys& keys, const Fn& printFn)
 {
@@ -21,6 +32,9 @@ void printObject(Writer& writer, const Keys& keys, const Fn& printFn)
 template<typename Keys, typename PrintFn, typename SkipFn>
 void printObject(Writer& writer, const Keys& keys, const PrintFn& printFn, const SkipFn& skipFn)
 {
+    PrinterNesting nesting(writer);
+    if (!nesting) return;
+
     writer.push('{');
 
     if (keys.size() > 1) {
@@ -66,6 +80,9 @@ void printArray(Writer& writer, size_t n, const Fn& printFn)
 template<typename PrintFn, typename SkipFn>
 void printArray(Writer& writer, size_t n, const PrintFn& printFn, const SkipFn& skipFn)
 {
+    PrinterNesting nesting(writer);
+    if (!nesting) return;
+
     writer.push('[');
 
     if (n > 1) {
diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 1c678b3..5c44e4b 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -34,6 +34,16 @@ newline()
     }
 }
 
+bool
+Writer::
+enter()
+{
+    if (++depth_ <= MaxDepth) return true;
+
+    error("too many nested values");
+    return false;
+}
+
 } // namespace json
 } // namespace reflect
 
diff --git a/src/utils/json/writer.h b/src/utils/json/writer.h
index 6118ee6..23952b1 100644
--- a/src/utils/json/writer.h
+++ b/src/utils/json/writer.h
@@ -27,8 +27,11 @@ struct Writer
         Default = EscapeUnicode | ValidateUnicode,
     };
 
+    // Objects that contain themselves would otherwise be printed forever.
+    enum { MaxDepth = 1000 };
+
     Writer(std::ostream& stream, Options options = Default) :
-        stream(stream), indent_(0), options(options)
+        stream(stream), indent_(0), depth_(0), options(options)
     {
         buffer_.resize(128);
     }
@@ -55,12 +58,16 @@ struct Writer
     void newline();
     void space();
 
+    bool enter();
+    void leave() { depth_--; }
+
 private:
     std::ostream& stream;
     std::vector<char> buffer_;
     Error error_;
 
     size_t indent_;
+    size_t depth_;
 
     Options options;
 };
-- 
2.43.0


From 2f384a112bac14c1ab54e50ebd9751727cef4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:57 +0000
Subject: [PATCH 35/40] fix: json numbers followed the locale of the program

---
 src/utils/json/format.cpp |  7 ++++++-
 src/utils/json/json.cpp   |  1 +
 src/utils/json/token.cpp  |  2 ++
 src/utils/json/utils.h    | 26 ++++++++++++++++++++++++++
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9e598f7..acc6965 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -32,7 +32,12 @@ void format(Writer& writer, const char* format, T value)
 {
     auto& buffer = writer.buffer();
 
-    size_t n = snprintf(buffer.data(), buffer.size(), format, value);
+    size_t n = 0;
+    {
+        NumericLocale locale;
+        n = snprintf(buffer.data(), buffer.size(), format, value);
+    }
+
     if (n == buffer.size()) {
         writer.error("buffer too small to format value");
         return;
diff --git a/src/utils/json/json.cpp b/src/utils/json/json.cpp
index 89e6266..fe58b60 100644
--- a/src/utils/json/json.cpp
+++ b/src/utils/json/json.cpp
@@ -17,6 +17,7 @@
 #include <cerrno>
 #include <cmath>
 #include <cstdlib>
+#include <locale.h>
 #include <mutex>
 #include <algorithm>
 
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 4a75ca3..31ef7dc 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -76,6 +76,8 @@ bool
 Token::
 toFloat(double& value) const
 {
+    NumericLocale locale;
+
     // Underflows are also reported as errors by strtod but they're harmless.
     value = std::strtod(value_->c_str(), nullptr);
     return value != HUGE_VAL && value != -HUGE_VAL;
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index c6aac5c..55e3f3b 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -18,5 +18,31 @@ size_t clz(char value)
     return value ? __builtin_clz(uint32_t(value) << 24) : 8;
 }
 
+
+/******************************************************************************/
+/* NUMERIC LOCALE                                                             */
+/******************************************************************************/
+
+// Numbers are always written the same way in json so the decimal point can't
+// depend on the locale selected by the program.
+struct NumericLocale
+{
+    NumericLocale() : previous(uselocale(classic())) {}
+    ~NumericLocale() { uselocale(previous); }
+
+    NumericLocale(const NumericLocale&) = delete;
+    NumericLocale& operator=(const NumericLocale&) = delete;
+
+private:
+
+    static locale_t classic()
+    {
+        static const locale_t locale = newlocale(LC_ALL_MASK, "C", locale_t(0));
+        return locale;
+    }
+
+    locale_t previous;
+};
+
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From b34ae7395fc3eed01d5a2ac7c8eb53e16a0b0f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:14 +0000
Subject: [PATCH 36/40] fix: json error positions followed the locale of the
 program

---
 src/utils/json/reader.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/json/reader.tcc b/src/utils/json/reader.tcc
index 91715ab..89cc60d 100644
--- a/src/utils/json/reader.tcc
+++ b/src/utils/json/reader.tcc
@@ -20,10 +20,10 @@ error(const char* fmt, Args&&... args)
 {
     if (error_) return;
 
-    std::stringstream ss;
-    ss << line_ << ":" << pos_ << ": ";
-    ss << reflect::errorFormat(fmt, std::forward<Args>(args)...);
-    error_ = Error(ss.str());
+    // Streams would write the position according to the locale of the program.
+    error_ = Error(
+            std::to_string(line_) + ":" + std::to_string(pos_) + ": " +
+            reflect::errorFormat(fmt, std::forward<Args>(args)...));
 }
 
 } // namespace json
-- 
2.43.0


From 4446d8464f090f31e0b01de33ff37b57615aa784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:27 +0000
Subject: [PATCH 37/40] fix: what a json pointer was to point to leaked if its
 custom parser threw

---
 src/utils/json/parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index 2f9296d..15ae93c 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -116,11 +116,14 @@ struct PointerParser : public Parser
 
         else {
             Value value = inner.type->alloc();
-            Value pointee = *value;
-            inner.parser->parse(reader, pointee);
 
+            // Has to be owned before it's parsed or it would leak if a custom
+            // parser throws.
             if (isSmartPtr) ptr.call<void>("reset", value);
             else ptr.assign(value);
+
+            Value pointee = *value;
+            inner.parser->parse(reader, pointee);
         }
     }
 
-- 
2.43.0


From 92e80fdcc04e66831472b79cb8e10956de68e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:07 +0000
Subject: [PATCH 38/40] fix: functors leaked if moving them or describing their
 function threw

---
 src/function.tcc     | 5 ++++-
 src/value_function.h | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/function.tcc b/src/function.tcc
index 5e5529d..cb56133 100644
--- a/src/function.tcc
+++ b/src/function.tcc
@@ -118,11 +118,14 @@ std::vector<Argument> reflectArguments(Args&&... args)
 template<typename Fn>
 Function::
 Function(const std::string& name, Fn fn) :
-    fn(makeValueFunction(std::move(fn))),
+    fn(nullptr),
     name_(name)
 {
     ret = reflectReturn<Fn>();
     args = reflectArguments<Fn>();
+
+    // Nothing frees the functor if something throws once it's made.
+    this->fn = makeValueFunction(std::move(fn));
 }
 
 
diff --git a/src/value_function.h b/src/value_function.h
index c5f3f29..29a3983 100644
--- a/src/value_function.h
+++ b/src/value_function.h
@@ -180,8 +180,12 @@ auto makeValueFunction(Fn fn) -> typename MakeValueFunction<Fn>::type*
 {
     typedef typename MakeValueFunction<Fn>::type ValueFn;
 
-    ValueFn* ptr = (ValueFn*) allocValueFunction(sizeof(ValueFn));
-    new (ptr) ValueFn(std::move(fn));
+    // Moving the functor is allowed to throw.
+    std::unique_ptr<void, void(*)(void*)>
+        memory(allocValueFunction(sizeof(ValueFn)), std::free);
+
+    ValueFn* ptr = new (memory.get()) ValueFn(std::move(fn));
+    memory.release();
     return ptr;
 }
 
-- 
2.43.0


From dbdfb3d5467914f3a7b5da881ef9be4490ced629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:55 +0000
Subject: [PATCH 39/40] fix: conversions described under an alias of their type
 were never found

---
 src/dsl/operators.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 9032de1..2ec389c 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -78,8 +78,11 @@ namespace reflect {
 /* REFLECT OP CAST                                                            */
 /******************************************************************************/
 
-#define reflectOpCast(type)                                     \
-    type_->addFunction("operator " #type "()", &T_::operator type)
+// Named after the type's id, which is what converters are looked up by, and not
+// after the way it's spelled which could be an alias or a partial name.
+#define reflectOpCast(type)                                             \
+    type_->addFunction(                                                 \
+            "operator " + reflect::typeId<type>() + "()", &T_::operator type)
 
 
 /******************************************************************************/
-- 
2.43.0


From 4659793673bd82a86ca6a5e892f41879fd9d7198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:08 +0000
Subject: [PATCH 40/40] fix: a reader looked broken after a number at the end
 of its stream

---
 src/utils/json/reader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/reader.h b/src/utils/json/reader.h
index 5c03cc2..cb59f11 100644
--- a/src/utils/json/reader.h
+++ b/src/utils/json/reader.h
@@ -44,7 +44,8 @@ struct Reader
     void error(const char* fmt, Args&&... args);
     const Error& error() const { return error_; }
 
-    char peek() { return stream.peek(); }
+    // Looking past the end a second time would fail the stream.
+    char peek() { return stream.eof() ? EOF : stream.peek(); }
     char pop() { pos_++; return stream.get(); }
 
     Token peekToken();
-- 
2.43.0

