From 9a96cc61adb016f14f983ab16a98904388957afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 01/32] fix: reject content after the document that starts with
 '/', and unterminated comments

skip_whitespace() reported 'end of input' both at the end and at a '/' that
does not start a (complete) comment, so parse("{}/garbage"), parse("{} // c")
and parsec("{}/* unterminated") were accepted.
---
 include/parser/parser_impl.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 94b601e..8b70c34 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -500,13 +500,16 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_whitespace() noe
             break;
         case '/':
             if constexpr (accept_jsonc) {
+                const auto comment_beg = _cur;
                 if (!skip_comment()) {
-                    return false;
+                    // not a comment, it's a content that nobody can accept
+                    _cur = comment_beg;
+                    return true;
                 }
                 // else continue;
             }
             else {
-                return false;
+                return true;
             }
             break;
         case '\0':
-- 
2.43.0


From 9ceded4f6fb82b5869f1f32e843e8efdb6d69488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 02/32] fix: reject raw text between the two halves of a
 surrogate pair

The accelerated string scan skipped over plain bytes while a high surrogate
was pending, so "\ud83dabc\udca9" was accepted (and its text reordered)
when enough bytes followed.
---
 include/parser/parser_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 8b70c34..4cc4dff 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -316,7 +316,8 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
 
     while (_cur != _end) {
         if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
-            if (!skip_string_literal_with_accel()) {
+            // nothing but another \u escape may follow a high surrogate
+            if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
             }
         }
-- 
2.43.0


From 8debc60bad50a13b431d6225c5ff21d0b46b2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 03/32] fix: do not move out of an lvalue optional or smart
 pointer

value(wrapper_t&&) is a forwarding reference: for a non-const lvalue it beat
value(const wrapper_t&) and moved the user's content away.
---
 include/common/value.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 2e304ba..3961df7 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -139,7 +139,8 @@ public:
     template <
         typename wrapper_t,
         std::enable_if_t<
-            _utils::is_nullable<std::decay_t<wrapper_t>> && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
+            !std::is_lvalue_reference_v<wrapper_t> && _utils::is_nullable<std::decay_t<wrapper_t>>
+                && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-- 
2.43.0


From 7d43465af246eceb44cc19863b592a57bc0266a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 04/32] fix: as<std::optional<T>>() of null is an empty
 optional

static_cast<std::optional<T>>(value) picks the converting constructor of
std::optional, not operator std::optional<T>(), so null threw although
is<std::optional<T>>() was true. Structures with null optional fields
could be checked but not loaded.
---
 include/common/utils.hpp      |  6 ++++++
 include/common/value_impl.hpp | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6a3eeeb..02e47bd 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <optional>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -86,6 +87,11 @@ constexpr bool is_nullable<
 template <typename T, typename = std::enable_if_t<is_nullable<T>>>
 using nullable_value_t = std::decay_t<decltype(*std::declval<T>())>;
 
+template <typename T>
+constexpr bool is_optional = false;
+template <typename T>
+constexpr bool is_optional<std::optional<T>> = true;
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0838137..0808dae 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -698,6 +698,13 @@ inline value_t value::as() const&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t>) {
+        // std::optional is constructible from anything its content is, so a cast wouldn't call operator std::optional<T>()
+        if (is_null()) {
+            return std::nullopt;
+        }
+        return value_t(as<typename value_t::value_type>());
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -723,6 +730,13 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t>) {
+        // std::optional is constructible from anything its content is, so a cast wouldn't call operator std::optional<T>()
+        if (is_null()) {
+            return std::nullopt;
+        }
+        return value_t(as<typename value_t::value_type>());
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From 985092a9febfd268a7444d9fb3b468793c717ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 05/32] fix: assigning a value from its own sub-value or
 parent, and using a moved-from value

The defaulted move assignment freed the source when it was inside of the
destination (v = std::move(v["a"])), copy assignment changed the type before
copying (v["a"] = v stored a string typed as an object, and an allocation
failure left the destination in that state), and a moved-from value kept its
type with no content, so that any later use of it crashed. A moved-from value
is now null.
---
 include/common/value_impl.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0808dae..b71ddd7 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -83,7 +83,11 @@ inline value::value(const value& rhs)
 {
 }
 
-inline value::value(value&& rhs) noexcept = default;
+inline value::value(value&& rhs) noexcept
+    : _type(std::exchange(rhs._type, value_type::null))
+    , _raw_data(std::exchange(rhs._raw_data, var_t()))
+{
+}
 
 inline value::value(bool b)
     : _type(value_type::boolean)
@@ -859,14 +863,20 @@ inline bool value::all() const
 
 inline value& value::operator=(const value& rhs)
 {
-    _type = rhs._type;
-    _raw_data = deep_copy(rhs._raw_data);
+    // rhs may be inside of *this, or *this inside of rhs
+    return *this = value(rhs);
+}
+
+inline value& value::operator=(value&& rhs) noexcept
+{
+    // rhs may be inside of *this, it has to be moved out before the old content is destroyed
+    value temp(std::move(rhs));
+    std::swap(_type, temp._type);
+    std::swap(_raw_data, temp._raw_data);
 
     return *this;
 }
 
-inline value& value::operator=(value&& rhs) noexcept = default;
-
 inline bool value::operator==(const value& rhs) const
 {
     if (_type != rhs._type) {
-- 
2.43.0


From 398ed95364e8235d8f95ff593fb2ef36cf42dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 06/32] fix: assigning or merging an array/object with one of
 its own descendants

o = std::move(o["a"].as_object()), a = a[0].as_array() and
o |= o["a"].as_object() read the source after it had been destroyed.
---
 include/common/array_impl.hpp  | 13 +++++++++++--
 include/common/object_impl.hpp | 29 ++++++++++++++++-------------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index af1cf4c..b912ece 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -23,8 +23,17 @@ inline array::array() = default;
 inline array::array(const array& rhs) = default;
 inline array::array(array&& rhs) noexcept = default;
 inline array::~array() noexcept = default;
-inline array& array::operator=(const array&) = default;
-inline array& array::operator=(array&&) noexcept = default;
+inline array& array::operator=(const array& rhs)
+{
+    // rhs may be inside of *this
+    return *this = array(rhs);
+}
+inline array& array::operator=(array&& rhs) noexcept
+{
+    raw_array temp = std::move(rhs._array_data);
+    _array_data.swap(temp);
+    return *this;
+}
 
 inline array::array(std::initializer_list<value_type> init_list)
     : _array_data(init_list)
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b59a11b..cd6a3ee 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -6,14 +6,8 @@ namespace json
 {
 namespace _object_impl_detail
 {
-inline void merge_object(object::raw_object& dst, const object& src)
-{
-    for (const auto& [key, val] : src) {
-        dst.insert_or_assign(key, val);
-    }
-}
-
-inline void merge_object_move(object::raw_object& dst, object& src)
+// src is taken by value: the source may be inside of a value that gets overwritten
+inline void merge_object(object::raw_object& dst, object src)
 {
     for (auto& [key, val] : src) {
         dst.insert_or_assign(key, std::move(val));
@@ -25,8 +19,17 @@ inline object::object() = default;
 inline object::object(const object& rhs) = default;
 inline object::object(object&& rhs) noexcept = default;
 inline object::~object() = default;
-inline object& object::operator=(const object&) = default;
-inline object& object::operator=(object&&) noexcept = default;
+inline object& object::operator=(const object& rhs)
+{
+    // rhs may be inside of *this
+    return *this = object(rhs);
+}
+inline object& object::operator=(object&& rhs) noexcept
+{
+    raw_object temp = std::move(rhs._object_data);
+    _object_data.swap(temp);
+    return *this;
+}
 
 inline object::object(std::initializer_list<value_type> init_list)
     : _object_data(std::make_move_iterator(init_list.begin()), std::make_move_iterator(init_list.end()))
@@ -293,7 +296,7 @@ inline object object::operator|(const object& rhs) const&
 inline object object::operator|(object&& rhs) const&
 {
     object temp = *this;
-    _object_impl_detail::merge_object_move(temp._object_data, rhs);
+    _object_impl_detail::merge_object(temp._object_data, std::move(rhs));
     return temp;
 }
 
@@ -305,7 +308,7 @@ inline object object::operator|(const object& rhs) &&
 
 inline object object::operator|(object&& rhs) &&
 {
-    _object_impl_detail::merge_object_move(_object_data, rhs);
+    _object_impl_detail::merge_object(_object_data, std::move(rhs));
     return std::move(*this);
 }
 
@@ -317,7 +320,7 @@ inline object& object::operator|=(const object& rhs)
 
 inline object& object::operator|=(object&& rhs)
 {
-    _object_impl_detail::merge_object_move(_object_data, rhs);
+    _object_impl_detail::merge_object(_object_data, std::move(rhs));
     return *this;
 }
 
-- 
2.43.0


From fd88dc2609c2fc42256b69f1a6a404806784d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 07/32] fix: keep a value consistent when turning an empty
 value into a container fails

as_array(), as_object() and operator[](key) changed the type before allocating
the container: after std::bad_alloc the value was typed as a container but
still held a string.
---
 include/common/value_impl.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index b71ddd7..dd59633 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -644,8 +644,7 @@ inline const object& value::as_object() const
 inline array& value::as_array()
 {
     if (empty()) {
-        _type = value_type::array;
-        _raw_data = std::make_unique<array>();
+        *this = array();
     }
 
     if (is_array()) {
@@ -658,8 +657,7 @@ inline array& value::as_array()
 inline object& value::as_object()
 {
     if (empty()) {
-        _type = value_type::object;
-        _raw_data = std::make_unique<object>();
+        *this = object();
     }
 
     if (is_object()) {
@@ -1011,8 +1009,7 @@ inline value& value::operator[](size_t pos)
 inline value& value::operator[](const std::string& key)
 {
     if (empty()) {
-        _type = value_type::object;
-        _raw_data = std::make_unique<object>();
+        *this = object();
     }
 
     return as_object()[key];
@@ -1021,8 +1018,7 @@ inline value& value::operator[](const std::string& key)
 inline value& value::operator[](std::string&& key)
 {
     if (empty()) {
-        _type = value_type::object;
-        _raw_data = std::make_unique<object>();
+        *this = object();
     }
 
     return as_object()[std::move(key)];
-- 
2.43.0


From 87fc4cd33a8ebe0df08c438da7b9fb972c18c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 08/32] fix: do not invalidate references to an empty array or
 object

as_array(), as_object() and operator[](key) replaced an empty container by a
new one, so that 'auto& o = v.as_object(); v["a"] = 1; o["b"] = 2;' used
freed memory.
---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index dd59633..567da82 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -643,7 +643,7 @@ inline const object& value::as_object() const
 
 inline array& value::as_array()
 {
-    if (empty()) {
+    if (!is_array() && empty()) {
         *this = array();
     }
 
@@ -656,7 +656,7 @@ inline array& value::as_array()
 
 inline object& value::as_object()
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         *this = object();
     }
 
@@ -1008,7 +1008,7 @@ inline value& value::operator[](size_t pos)
 
 inline value& value::operator[](const std::string& key)
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         *this = object();
     }
 
@@ -1017,7 +1017,7 @@ inline value& value::operator[](const std::string& key)
 
 inline value& value::operator[](std::string&& key)
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         *this = object();
     }
 
-- 
2.43.0


From 8231514d6a641081d509e9df30fb5dedee86c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 09/32] fix: convert subnormal and underflowing numbers

std::stod() and friends throw on underflow too, so json::value(4.9e-324)
could not be read back and [1e-310] was not a double. Only overflow is an
error now.
---
 include/common/value_impl.hpp | 63 ++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 567da82..a6fd684 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cerrno>
+#include <cstdlib>
+
 #include "value.hpp"
 
 namespace json
@@ -27,27 +30,33 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
 }
 
+// strto* instead of std::sto*: the latter rejects subnormal numbers (ERANGE is also set on underflow)
 template <typename value_t>
-inline value_t parse_floating(const std::string& str, const char* target_type)
+inline bool try_parse_floating(const std::string& str, value_t& result)
 {
-    try {
-        size_t pos = 0;
-        value_t result {};
-        if constexpr (std::is_same_v<value_t, float>) {
-            result = std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            result = std::stod(str, &pos);
-        }
-        else {
-            result = std::stold(str, &pos);
-        }
-
-        if (pos == str.size()) {
-            return result;
-        }
+    static_assert(std::is_floating_point_v<value_t>, "value_t must be floating point");
+    char* last = nullptr;
+    errno = 0;
+    if constexpr (std::is_same_v<value_t, float>) {
+        result = std::strtof(str.c_str(), &last);
+    }
+    else if constexpr (std::is_same_v<value_t, double>) {
+        result = std::strtod(str.c_str(), &last);
     }
-    catch (const std::exception&) {
+    else {
+        result = std::strtold(str.c_str(), &last);
+    }
+
+    const bool overflow = errno == ERANGE && (result > 1 || result < -1);
+    return !overflow && !str.empty() && last == str.c_str() + str.size();
+}
+
+template <typename value_t>
+inline value_t parse_floating(const std::string& str, const char* target_type)
+{
+    value_t result {};
+    if (try_parse_floating(str, result)) {
+        return result;
     }
 
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
@@ -56,22 +65,8 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 template <typename value_t>
 inline bool can_parse_floating(const std::string& str) noexcept
 {
-    try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            (void)std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            (void)std::stod(str, &pos);
-        }
-        else {
-            (void)std::stold(str, &pos);
-        }
-        return pos == str.size();
-    }
-    catch (const std::exception&) {
-        return false;
-    }
+    value_t result {};
+    return try_parse_floating(str, result);
 }
 } // namespace _value_impl_detail
 
-- 
2.43.0


From 136322b937f066e43340cb7260813a214e36055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 10/32] fix: numbers don't depend on the locale

Floating point numbers were written with the decimal point (and the digit
grouping, with MEOJSON_KEEP_FLOATING_PRECISION) of the current locale, which is
not JSON, and could not be read back in it.
---
 include/common/utils.hpp      | 12 ++++++++----
 include/common/value_impl.hpp | 19 +++++++++++++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 02e47bd..f764249 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <locale>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -482,16 +483,19 @@ inline std::string_view null_string()
 template <typename any_t>
 inline std::string to_basic_string(any_t&& arg)
 {
-#ifdef MEOJSON_KEEP_FLOATING_PRECISION
     using real_type = std::remove_reference_t<any_t>;
     if constexpr (std::is_floating_point_v<real_type>) {
+        // JSON numbers don't depend on the locale, std::to_string() does
         std::ostringstream oss;
+        oss.imbue(std::locale::classic());
+#ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
+#else
+        oss << std::fixed << arg;
+#endif
         return oss.str();
     }
-    else
-#endif
-    {
+    else {
         return std::to_string(std::forward<any_t>(arg));
     }
 }
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index a6fd684..735891b 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cerrno>
+#include <clocale>
 #include <cstdlib>
 
 #include "value.hpp"
@@ -31,8 +32,9 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
 }
 
 // strto* instead of std::sto*: the latter rejects subnormal numbers (ERANGE is also set on underflow)
+// returns the length of the number, 0 if it is out of range
 template <typename value_t>
-inline bool try_parse_floating(const std::string& str, value_t& result)
+inline size_t scan_floating(const std::string& str, value_t& result)
 {
     static_assert(std::is_floating_point_v<value_t>, "value_t must be floating point");
     char* last = nullptr;
@@ -48,7 +50,20 @@ inline bool try_parse_floating(const std::string& str, value_t& result)
     }
 
     const bool overflow = errno == ERANGE && (result > 1 || result < -1);
-    return !overflow && !str.empty() && last == str.c_str() + str.size();
+    return overflow ? 0 : static_cast<size_t>(last - str.c_str());
+}
+
+template <typename value_t>
+inline bool try_parse_floating(const std::string& str, value_t& result)
+{
+    const size_t length = scan_floating(str, result);
+    if (length < str.size() && str[length] == '.') {
+        // the current C locale has another decimal point
+        std::string localized = str;
+        localized.replace(length, 1, std::localeconv()->decimal_point);
+        return localized != str && scan_floating(localized, result) == localized.size();
+    }
+    return length != 0 && length == str.size();
 }
 
 template <typename value_t>
-- 
2.43.0


From c37154d2e2bc76a98cd5b0df39a1553ac97844d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 11/32] fix: enumerators beyond the range of int or differing
 only by case

The value was truncated to int before it was looked up (1ull << 32 was written
as the name of 0, INT_MAX overflowed), and the case-insensitive lookup took the
first match even if another enumerator had exactly that name.
---
 include/common/enum_reflection.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a70ae04..0bb61db 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -184,13 +184,17 @@ constexpr std::string_view enum_to_string(E val)
 {
     constexpr int min = enum_range<E>::min;
     constexpr int max = enum_range<E>::max;
-    constexpr int range = max - min + 1;
 
     const auto& names = enum_name_storage<E>::names;
 
-    int idx = static_cast<int>(val) - min;
-    if (idx >= 0 && idx < range) {
-        return names[idx];
+    const auto underlying = static_cast<std::underlying_type_t<E>>(val);
+    const int num = static_cast<int>(underlying);
+    if (static_cast<std::underlying_type_t<E>>(num) != underlying) {
+        // doesn't even fit in an int
+        return {};
+    }
+    if (num >= min && num <= max) {
+        return names[num - min];
     }
     return {};
 }
@@ -224,6 +228,12 @@ std::optional<E> string_to_enum(std::string_view str)
 
     const auto& names = enum_name_storage<E>::names;
 
+    // enumerators may differ only by case
+    for (int i = 0; i < range; ++i) {
+        if (!names[i].empty() && names[i] == str) {
+            return static_cast<E>(i + min);
+        }
+    }
     for (int i = 0; i < range; ++i) {
         if (!names[i].empty()) {
             if (iequals(names[i], str)) {
-- 
2.43.0


From a11ed3b8b5a1e70267ff113e74a1c42190815885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 12/32] fix: do not read past the blocks of a non-contiguous
 container

parse(std::deque<char>) loaded SIMD packs across the end of a deque block.
---
 include/common/utils.hpp       | 11 +++++++++++
 include/parser/parser_impl.hpp |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index f764249..63b53ee 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -134,6 +134,17 @@ struct has_size<T, std::void_t<decltype(std::declval<const T&>().size())>> : std
 {
 };
 
+// contiguous storage
+template <typename T, typename = void>
+struct has_data : std::false_type
+{
+};
+
+template <typename T>
+struct has_data<T, std::void_t<decltype(std::declval<const T&>().data())>> : std::true_type
+{
+};
+
 template <typename T, typename = void>
 struct has_reserve : std::false_type
 {
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 4cc4dff..a7fe0d6 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -315,7 +315,7 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
     uint16_t pair_high = 0;
 
     while (_cur != _end) {
-        if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
+        if constexpr (sizeof(*_cur) == 1 && accel_traits::available && _utils::has_data<parsing_t>::value) {
             // nothing but another \u escape may follow a high surrogate
             if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
-- 
2.43.0


From bae038a9551146708d2026bf9dbb61860a8a1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 13/32] fix: get() with a std::string_view default

The string was returned as a view of a temporary, and get() with several keys
didn't compile.
---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 735891b..f86902c 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -456,11 +456,11 @@ inline auto value::get_helper(const value_t& default_value, first_key_t&& first,
 {
     if constexpr (std::is_constructible_v<std::string, first_key_t>) {
         return is_object() ? as_object().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                           : default_value;
+                           : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<first_key_t>>) {
         return is_array() ? as_array().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                          : default_value;
+                          : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(first_key_t), "Parameter must be integral or std::string constructible");
@@ -471,10 +471,10 @@ template <typename value_t, typename unique_key_t>
 inline auto value::get_helper(const value_t& default_value, unique_key_t&& first) const
 {
     if constexpr (std::is_constructible_v<std::string, unique_key_t>) {
-        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<unique_key_t>>) {
-        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(unique_key_t), "Parameter must be integral or std::string constructible");
-- 
2.43.0


From 25b64f753b7e449edd259017e9c2cf49757cec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 14/32] fix: do not throw when a stream can't be sought or read

parse(std::istream&) and open() threw std::length_error for a pipe or a
directory instead of returning std::nullopt.
---
 include/parser/parser_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index a7fe0d6..e549c9f 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -617,6 +617,10 @@ inline std::optional<value> parse(std::istream& istream, bool check_bom, bool wi
     auto file_size = istream.tellg();
 
     istream.seekg(0, std::ios::beg);
+    if (file_size < 0 || (file_size > 0 && istream.peek() == std::istream::traits_type::eof())) {
+        // not seekable, or not readable (e.g. a directory)
+        return std::nullopt;
+    }
     std::string str(file_size, '\0');
 
     istream.read(str.data(), file_size);
-- 
2.43.0


From d3b2b0bb8cd1ddcbe81aba219cddf6d5d16a8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 15/32] fix: report an I/O error in the middle of a stream

---
 include/parser/parser_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index e549c9f..e4c34eb 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -624,6 +624,10 @@ inline std::optional<value> parse(std::istream& istream, bool check_bom, bool wi
     std::string str(file_size, '\0');
 
     istream.read(str.data(), file_size);
+    if (istream.bad()) {
+        // an I/O error, the rest of the content is unknown
+        return std::nullopt;
+    }
 
     if (check_bom) {
         using uchar = unsigned char;
-- 
2.43.0


From 5949ab2cd0fc5b4bc81c6e172bc4a4921c3d5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 16/32] fix: reject another \u escape between the two halves of
 a surrogate pair

---
 include/parser/parser_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index e4c34eb..03425bd 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -438,6 +438,10 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_unicode_escape(u
         ext_cp = (((pair_high - 0xD800) << 10) | (cp - 0xDC00)) + 0x10000;
         pair_high = 0;
     }
+    else if (pair_high) {
+        // nothing but a low surrogate may follow a high one
+        return false;
+    }
 
     // utf8
     if (ext_cp <= 0x7F) {
-- 
2.43.0


From 7c06540a9bf2c2999f29537df8127fb1a3e542d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 17/32] fix: do not make a string of a null pointer when get()
 has nullptr as default

---
 include/common/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 63b53ee..c547247 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -160,7 +160,8 @@ constexpr bool is_json_value = std::is_same_v<std::decay_t<T>, value> || std::is
     || std::is_same_v<std::decay_t<T>, object>;
 
 template <typename T>
-constexpr bool should_return_string = std::is_constructible_v<std::string, T> && !is_json_value<T>;
+constexpr bool should_return_string =
+    std::is_constructible_v<std::string, T> && !is_json_value<T> && !std::is_same_v<std::decay_t<T>, std::nullptr_t>;
 
 template <typename value_t>
 inline auto default_or_string(const value_t& default_value)
-- 
2.43.0


From 33f945c13999024753cd55e6e60395a6c8755223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 18/32] fix: build an array from an rvalue std::vector<bool>

---
 include/common/array_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index b912ece..575aa22 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -106,7 +106,7 @@ inline array::array(collection_t&& coll)
     if constexpr (_utils::has_size<collection_t>::value) {
         _array_data.reserve(coll.size());
     }
-    for (auto& val : coll) {
+    for (auto&& val : coll) {
         _array_data.emplace_back(std::move(val));
     }
 }
-- 
2.43.0


From 24de2ec59558d5134fb50e732b6139c750881f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 19/32] fix: convert numbers to enums whose underlying type is
 a character or short type

---
 include/common/value.hpp      |  5 ++++-
 include/common/value_impl.hpp | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 3961df7..cc7b032 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -493,7 +493,7 @@ public:
             }
         }
         else if (is_number()) {
-            return static_cast<enum_t>(static_cast<std::underlying_type_t<enum_t>>(*this));
+            return static_cast<enum_t>(as_underlying<std::underlying_type_t<enum_t>>());
         }
         else {
             throw exception("Cannot convert to enum: expected string or number type, " + value_info());
@@ -666,6 +666,9 @@ private:
     template <typename value_t, typename unique_key_t>
     auto get_helper(const value_t& default_value, unique_key_t&& first) const;
 
+    template <typename underlying_t>
+    underlying_t as_underlying() const;
+
     const std::string& as_basic_type_str() const;
     std::string& as_basic_type_str();
 
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index f86902c..ee50c60 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -754,6 +754,18 @@ inline value_t value::as() &&
     }
 }
 
+template <typename underlying_t>
+inline underlying_t value::as_underlying() const
+{
+    if constexpr (std::is_same_v<bool, underlying_t>) {
+        return as_boolean();
+    }
+    else {
+        // there is no conversion operator for the character and short types
+        return _value_impl_detail::parse_integer<underlying_t>(as_basic_type_str(), "enum");
+    }
+}
+
 inline const std::string& value::as_basic_type_str() const
 {
     return std::get<std::string>(_raw_data);
-- 
2.43.0


From 5ac01d6bf92e49c36c1036ec9a2cb380bb068ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 20/32] fix: as<std::tuple<T>>() converts the element of an
 array of one element

std::tuple<T> is constructible from whatever T is constructible from, so
that a cast made the whole array the element.
---
 include/common/value_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index ee50c60..0c7bcf1 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -717,6 +717,10 @@ inline value_t value::as() const&
         }
         return value_t(as<typename value_t::value_type>());
     }
+    else if constexpr (_utils::is_tuple<value_t>) {
+        // the same goes for a std::tuple of one element
+        return std::as_const(*this).as_array().template as<value_t>();
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -749,6 +753,10 @@ inline value_t value::as() &&
         }
         return value_t(as<typename value_t::value_type>());
     }
+    else if constexpr (_utils::is_tuple<value_t>) {
+        // the same goes for a std::tuple of one element
+        return std::as_const(*this).as_array().template as<value_t>();
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From 4b97d521afbff3ecdd8d48bb4ed57e1ddda44064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 21/32] fix: do not move out of what a shared_ptr points to

Others may own it, too: building a value from an rvalue std::shared_ptr, or
from an rvalue container of them, emptied the string they still used.
---
 include/common/utils.hpp | 6 ++++++
 include/common/value.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index c547247..3bc1469 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -7,6 +7,7 @@
 #include <iomanip>
 #include <limits>
 #include <locale>
+#include <memory>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -85,6 +86,11 @@ constexpr bool is_nullable<
         decltype(*std::declval<T>())                    // 检查 operator*
         >> = !std::is_pointer_v<std::decay_t<T>>;       // 排除原生指针
 
+template <typename T>
+constexpr bool is_shared_ptr = false;
+template <typename T>
+constexpr bool is_shared_ptr<std::shared_ptr<T>> = true;
+
 template <typename T, typename = std::enable_if_t<is_nullable<T>>>
 using nullable_value_t = std::decay_t<decltype(*std::declval<T>())>;
 
diff --git a/include/common/value.hpp b/include/common/value.hpp
index cc7b032..dc15bfb 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -140,6 +140,7 @@ public:
         typename wrapper_t,
         std::enable_if_t<
             !std::is_lvalue_reference_v<wrapper_t> && _utils::is_nullable<std::decay_t<wrapper_t>>
+                && !_utils::is_shared_ptr<std::decay_t<wrapper_t>> // others may own what it points to
                 && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
-- 
2.43.0


From 92d88664fec42d5c408419baad67ca39f7821183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 22/32] fix: write a member named "result"

MEO_TOJSON declared a local variable of that name, which hid the member.
---
 include/reflection/jsonization.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reflection/jsonization.hpp b/include/reflection/jsonization.hpp
index ba0386b..c929b5a 100644
--- a/include/reflection/jsonization.hpp
+++ b/include/reflection/jsonization.hpp
@@ -428,11 +428,11 @@ namespace json::_private_macro
 #define MEO_TOJSON(...)                                                                                                    \
     json::value to_json() const                                                                                            \
     {                                                                                                                      \
-        json::object result;                                                                                               \
+        json::object _MEOJSON_VARNAME(result);                                                                             \
         json::_jsonization_helper::dumper()._to_json(                                                                      \
-            result,                                                                                                        \
+            _MEOJSON_VARNAME(result),                                                                                      \
             _MEOJSON_EXPAND(_MEOJSON_FOR_EACH(_MEOJSON_KEY_VALUE, __VA_ARGS__)) json::_jsonization_helper::va_arg_end {}); \
-        return result;                                                                                                     \
+        return _MEOJSON_VARNAME(result);                                                                                   \
     }
 
 #define MEO_CHECKJSON(...)                                                                                                 \
-- 
2.43.0


From 29f471e884ba5fd9a55e78fbbaf7226a4924340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 23/32] fix: convert a boolean to an enum whose underlying type
 is bool

is<E>() said that it can be converted, and with MEOJSON_ENUM_AS_NUMBER it is
what such an enum becomes.
---
 include/common/value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index dc15bfb..c01044c 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -493,7 +493,7 @@ public:
                 throw exception("Cannot convert to enum: invalid enum string value, " + value_info());
             }
         }
-        else if (is_number()) {
+        else if (is_number() || (std::is_same_v<bool, std::underlying_type_t<enum_t>> && is_boolean())) {
             return static_cast<enum_t>(as_underlying<std::underlying_type_t<enum_t>>());
         }
         else {
-- 
2.43.0


From 2db2c7645bd530b3c7f3702b465a8e610d0fded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 24/32] fix: let is<T>() pass on the exceptions of check_json

---
 include/common/value.hpp      | 6 +++---
 include/common/value_impl.hpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index c01044c..760f641 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -329,7 +329,7 @@ public:
     bool is_object() const noexcept;
 
     template <typename value_t>
-    bool is() const noexcept;
+    bool is() const;
 
     template <typename value_t>
     bool all() const;
@@ -393,10 +393,10 @@ public:
 
 private:
     template <typename tuple_t, size_t... Is>
-    bool is_tuple_helper(std::index_sequence<Is...>) const noexcept;
+    bool is_tuple_helper(std::index_sequence<Is...>) const;
 
     template <typename... Ts>
-    bool is_variant_helper(std::variant<Ts...>*) const noexcept;
+    bool is_variant_helper(std::variant<Ts...>*) const;
 
     template <typename... Ts>
     std::variant<Ts...> to_variant_helper() const&;
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0c7bcf1..a7fb95a 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -78,7 +78,7 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 }
 
 template <typename value_t>
-inline bool can_parse_floating(const std::string& str) noexcept
+inline bool can_parse_floating(const std::string& str)
 {
     value_t result {};
     return try_parse_floating(str, result);
@@ -271,7 +271,7 @@ inline bool value::is_object() const noexcept
 }
 
 template <typename value_t>
-inline bool value::is() const noexcept
+inline bool value::is() const
 {
     if constexpr (std::is_same_v<value, value_t>) {
         return true;
@@ -678,14 +678,14 @@ inline object& value::as_object()
 }
 
 template <typename tuple_t, size_t... Is>
-inline bool value::is_tuple_helper(std::index_sequence<Is...>) const noexcept
+inline bool value::is_tuple_helper(std::index_sequence<Is...>) const
 {
     const auto& arr = as_array();
     return (arr[Is].is<std::tuple_element_t<Is, tuple_t>>() && ...);
 }
 
 template <typename... Ts>
-inline bool value::is_variant_helper(std::variant<Ts...>*) const noexcept
+inline bool value::is_variant_helper(std::variant<Ts...>*) const
 {
     return (is<Ts>() || ...);
 }
-- 
2.43.0


From a38991821649961a557fab5aacd07cab1e615e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 25/32] fix: parse a stream of a derived type without further
 arguments

---
 include/parser/parser.hpp      | 2 +-
 include/parser/parser_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser.hpp b/include/parser/parser.hpp
index 858f971..9e4f1fd 100644
--- a/include/parser/parser.hpp
+++ b/include/parser/parser.hpp
@@ -64,7 +64,7 @@ private:
 // *      utils declare      *
 // ***************************
 
-template <typename parsing_t>
+template <typename parsing_t, std::enable_if_t<!std::is_base_of_v<std::istream, parsing_t>, bool> = true>
 std::optional<value> parse(const parsing_t& content);
 
 std::optional<value> parse(const char* content);
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 03425bd..e946b94 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -604,7 +604,7 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_digit()
 // *      utils impl       *
 // *************************
 
-template <typename parsing_t>
+template <typename parsing_t, std::enable_if_t<!std::is_base_of_v<std::istream, parsing_t>, bool>>
 inline std::optional<value> parse(const parsing_t& content)
 {
     return parser<false, parsing_t>::parse(content);
-- 
2.43.0


From 6dfb354b6ebc101d02659dae947e2ce43b0c7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 26/32] fix: let an enum have its own jsonization
 specialisation

The built-in enum conversions competed with the specialisation, so every
conversion of such an enum was ambiguous and did not compile.
---
 include/common/value.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 760f641..8b66be8 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -79,7 +79,7 @@ public:
     template <typename... args_t>
     value(value_type type, args_t&&... args);
 
-    template <typename enum_t, std::enable_if_t<std::is_enum_v<enum_t>, bool> = true>
+    template <typename enum_t, std::enable_if_t<std::is_enum_v<enum_t> && !_utils::has_to_json_in_templ_spec<enum_t>::value, bool> = true>
     value(enum_t e)
 #ifdef MEOJSON_ENUM_AS_NUMBER
         : value(static_cast<std::underlying_type_t<enum_t>>(e))
@@ -482,7 +482,7 @@ public:
     explicit operator std::nullptr_t() const;
     explicit operator std::monostate() const;
 
-    template <typename enum_t, std::enable_if_t<std::is_enum_v<enum_t>, bool> = true>
+    template <typename enum_t, std::enable_if_t<std::is_enum_v<enum_t> && !_utils::has_from_json_in_templ_spec<enum_t>::value, bool> = true>
     explicit operator enum_t() const
     {
         if (is_string()) {
-- 
2.43.0


From c33412981ba3f2d7c3d6c7ddf19f81f51adf2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 27/32] fix: use the jsonization specialisation in as<T>() on
 an rvalue

Without move_from_json(), a specialisation for a type that is also
supported natively (std::optional, std::tuple, std::variant, smart
pointers) was ignored or did not compile, unlike on an lvalue.
---
 include/common/value_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index a7fb95a..c838aca 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -746,6 +746,13 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::has_from_json_in_templ_spec<value_t>::value) {
+        value_t dst {};
+        if (!ext::jsonization<value_t>().from_json(*this, dst)) {
+            throw exception("Deserialization failed: from_json() returned false, " + value_info());
+        }
+        return dst;
+    }
     else if constexpr (_utils::is_optional<value_t>) {
         // std::optional is constructible from anything its content is, so a cast wouldn't call operator std::optional<T>()
         if (is_null()) {
-- 
2.43.0


From 0ed5a8b6ace977fc51ca1ea8755af09ee96ad672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 28/32] fix: prefer the jsonization specialisation when casting
 to nullable and variant types

The native conversion operators to std::optional, std::variant and smart
pointers are not constrained like those to the other types.
---
 include/common/value.hpp      | 16 ++++++++--------
 include/common/value_impl.hpp |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 8b66be8..8986f73 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -536,7 +536,7 @@ public:
     }
 
     // Native support for converting to nullable wrappers (std::optional, std::shared_ptr, std::unique_ptr)
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::optional<T>>::value, bool> = true>
     explicit operator std::optional<T>() const&
     {
         if (is_null()) {
@@ -545,7 +545,7 @@ public:
         return std::optional<T>(static_cast<T>(*this));
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::optional<T>>::value, bool> = true>
     explicit operator std::optional<T>() &&
     {
         if (is_null()) {
@@ -554,7 +554,7 @@ public:
         return std::optional<T>(static_cast<T>(std::move(*this)));
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::shared_ptr<T>>::value, bool> = true>
     explicit operator std::shared_ptr<T>() const&
     {
         if (is_null()) {
@@ -563,7 +563,7 @@ public:
         return std::make_shared<T>(static_cast<T>(*this));
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::shared_ptr<T>>::value, bool> = true>
     explicit operator std::shared_ptr<T>() &&
     {
         if (is_null()) {
@@ -572,7 +572,7 @@ public:
         return std::make_shared<T>(static_cast<T>(std::move(*this)));
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::unique_ptr<T>>::value, bool> = true>
     explicit operator std::unique_ptr<T>() const&
     {
         if (is_null()) {
@@ -581,7 +581,7 @@ public:
         return std::make_unique<T>(static_cast<T>(*this));
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::unique_ptr<T>>::value, bool> = true>
     explicit operator std::unique_ptr<T>() &&
     {
         if (is_null()) {
@@ -591,10 +591,10 @@ public:
     }
 
     // Native support for converting to std::variant<Ts...>
-    template <typename... Ts>
+    template <typename... Ts, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::variant<Ts...>>::value, bool> = true>
     explicit operator std::variant<Ts...>() const&;
 
-    template <typename... Ts>
+    template <typename... Ts, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::variant<Ts...>>::value, bool> = true>
     explicit operator std::variant<Ts...>() &&;
 
 #ifdef MEOJSON_FS_PATH_EXTENSION
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index c838aca..76e3289 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -1226,13 +1226,13 @@ inline std::variant<Ts...> value::move_to_variant_helper() &&
 }
 
 // Implementation of variant conversion operators
-template <typename... Ts>
+template <typename... Ts, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::variant<Ts...>>::value, bool>>
 inline value::operator std::variant<Ts...>() const&
 {
     return to_variant_helper<Ts...>();
 }
 
-template <typename... Ts>
+template <typename... Ts, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::variant<Ts...>>::value, bool>>
 inline value::operator std::variant<Ts...>() &&
 {
     return std::move(*this).move_to_variant_helper<Ts...>();
-- 
2.43.0


From 156534b7ef5366f64024e51182bc971a96221ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 29/32] fix: convert to smart pointers to a tuple of one
 element

A cast to std::tuple<T> constructs the element from the value instead of
calling the conversion; as<T>() knows about that.
---
 include/common/value.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 8986f73..19133ca 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -542,7 +542,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(*this));
+        return std::optional<T>(as<T>());
     }
 
     template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::optional<T>>::value, bool> = true>
@@ -551,7 +551,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(std::move(*this)));
+        return std::optional<T>(std::move(*this).template as<T>());
     }
 
     template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::shared_ptr<T>>::value, bool> = true>
@@ -560,7 +560,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(*this));
+        return std::make_shared<T>(as<T>());
     }
 
     template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::shared_ptr<T>>::value, bool> = true>
@@ -569,7 +569,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(std::move(*this)));
+        return std::make_shared<T>(std::move(*this).template as<T>());
     }
 
     template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::unique_ptr<T>>::value, bool> = true>
@@ -578,7 +578,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(*this));
+        return std::make_unique<T>(as<T>());
     }
 
     template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::unique_ptr<T>>::value, bool> = true>
@@ -587,7 +587,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(std::move(*this)));
+        return std::make_unique<T>(std::move(*this).template as<T>());
     }
 
     // Native support for converting to std::variant<Ts...>
-- 
2.43.0


From 801f76d30a00117909661a11dbd67e243a10d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 30/32] fix: get() of a string-like type with its own
 conversions returns that type

A default that is convertible to std::string made get() return a string
even for types with their own from_json(), whose JSON may not be a string.
---
 include/common/utils.hpp | 51 ++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 3bc1469..a395b3b 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -165,9 +165,34 @@ template <typename T>
 constexpr bool is_json_value = std::is_same_v<std::decay_t<T>, value> || std::is_same_v<std::decay_t<T>, array>
     || std::is_same_v<std::decay_t<T>, object>;
 
+template <typename T, typename = void>
+struct has_from_json_in_member : std::false_type
+{
+};
+
+template <typename T>
+struct has_from_json_in_member<T, std::void_t<decltype(std::declval<T>().from_json(std::declval<value>()))>> : std::true_type
+{
+};
+
+template <typename T, typename = void>
+struct has_from_json_in_templ_spec : std::false_type
+{
+};
+
+template <typename T>
+struct has_from_json_in_templ_spec<
+    T,
+    std::void_t<
+        decltype(std::declval<ext::jsonization<std::decay_t<T>>>().from_json(std::declval<value>(), std::declval<std::decay_t<T>&>()))>>
+    : std::true_type
+{
+};
+
 template <typename T>
 constexpr bool should_return_string =
-    std::is_constructible_v<std::string, T> && !is_json_value<T> && !std::is_same_v<std::decay_t<T>, std::nullptr_t>;
+    std::is_constructible_v<std::string, T> && !is_json_value<T> && !std::is_same_v<std::decay_t<T>, std::nullptr_t>
+    && !has_from_json_in_member<T>::value && !has_from_json_in_templ_spec<T>::value;
 
 template <typename value_t>
 inline auto default_or_string(const value_t& default_value)
@@ -215,16 +240,6 @@ struct has_check_json_in_member<T, std::void_t<decltype(std::declval<T>().check_
 {
 };
 
-template <typename T, typename = void>
-struct has_from_json_in_member : std::false_type
-{
-};
-
-template <typename T>
-struct has_from_json_in_member<T, std::void_t<decltype(std::declval<T>().from_json(std::declval<value>()))>> : std::true_type
-{
-};
-
 template <typename T, typename = void>
 struct has_to_json_in_templ_spec : std::false_type
 {
@@ -248,20 +263,6 @@ struct has_check_json_in_templ_spec<
 {
 };
 
-template <typename T, typename = void>
-struct has_from_json_in_templ_spec : std::false_type
-{
-};
-
-template <typename T>
-struct has_from_json_in_templ_spec<
-    T,
-    std::void_t<
-        decltype(std::declval<ext::jsonization<std::decay_t<T>>>().from_json(std::declval<value>(), std::declval<std::decay_t<T>&>()))>>
-    : std::true_type
-{
-};
-
 template <typename T, typename = void>
 struct has_move_to_json_in_templ_spec : std::false_type
 {
-- 
2.43.0


From e0a21256dae53fbce9c817e47be46d13c3c04c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 31/32] fix: array::as() and object::as() use user-defined
 conversions

They only knew the native conversions, and bypassed an ext::jsonization
specialisation for a natively supported type, unlike the cast operators.
---
 include/common/array_impl.hpp  | 10 ++++++++--
 include/common/object_impl.hpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index 575aa22..fc8e094 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -439,7 +439,10 @@ inline std::ostream& operator<<(std::ostream& out, const array& arr)
 template <typename T>
 inline T array::as() const&
 {
-    if constexpr (_utils::is_fixed_array<T>) {
+    if constexpr (_utils::has_from_json_in_member<T>::value || _utils::has_from_json_in_templ_spec<T>::value) {
+        return value(*this).template as<T>();
+    }
+    else if constexpr (_utils::is_fixed_array<T>) {
         constexpr size_t size = _utils::fixed_array_size<T>;
         if (_array_data.size() != size) {
             throw exception("Array size mismatch: expected=" + std::to_string(size) + ", actual=" + std::to_string(_array_data.size()));
@@ -484,7 +487,10 @@ inline T array::as() const&
 template <typename T>
 inline T array::as() &&
 {
-    if constexpr (_utils::is_fixed_array<T>) {
+    if constexpr (_utils::has_from_json_in_member<T>::value || _utils::has_from_json_in_templ_spec<T>::value) {
+        return value(std::move(*this)).template as<T>();
+    }
+    else if constexpr (_utils::is_fixed_array<T>) {
         constexpr size_t size = _utils::fixed_array_size<T>;
         if (_array_data.size() != size) {
             throw exception("Array size mismatch: expected=" + std::to_string(size) + ", actual=" + std::to_string(_array_data.size()));
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index cd6a3ee..2309e96 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -343,7 +343,10 @@ inline std::ostream& operator<<(std::ostream& out, const object& obj)
 template <typename T>
 inline T object::as() const&
 {
-    if constexpr (_utils::is_map<T> && std::is_same_v<typename T::key_type, std::string>) {
+    if constexpr (_utils::has_from_json_in_member<T>::value || _utils::has_from_json_in_templ_spec<T>::value) {
+        return value(*this).template as<T>();
+    }
+    else if constexpr (_utils::is_map<T> && std::is_same_v<typename T::key_type, std::string>) {
         T result;
         for (const auto& [key, val] : _object_data) {
             result.emplace(key, val.as<typename T::mapped_type>());
@@ -358,7 +361,10 @@ inline T object::as() const&
 template <typename T>
 inline T object::as() &&
 {
-    if constexpr (_utils::is_map<T> && std::is_same_v<typename T::key_type, std::string>) {
+    if constexpr (_utils::has_from_json_in_member<T>::value || _utils::has_from_json_in_templ_spec<T>::value) {
+        return value(std::move(*this)).template as<T>();
+    }
+    else if constexpr (_utils::is_map<T> && std::is_same_v<typename T::key_type, std::string>) {
         T result;
         for (auto& [key, val] : _object_data) {
             result.emplace(key, std::move(val).as<typename T::mapped_type>());
-- 
2.43.0


From 654eac1ca1c57f15dc98f0231ba9ad9a76f266e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 32/32] fix: append to arrays in amortized constant time

---
 include/common/array_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index fc8e094..b919470 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -1,20 +1,30 @@
 #pragma once
 
+#include <algorithm>
+
 #include "array.hpp"
 
 namespace json
 {
 namespace _array_impl_detail
 {
+// Reserving exactly what is needed each time would move every element on every append
+inline void reserve_for_append(array::raw_array& dst, size_t count)
+{
+    if (dst.capacity() - dst.size() < count) {
+        dst.reserve(dst.size() + (std::max)(dst.size(), count));
+    }
+}
+
 inline void append_array(array::raw_array& dst, const array& src)
 {
-    dst.reserve(dst.size() + src.size());
+    reserve_for_append(dst, src.size());
     dst.insert(dst.end(), src.begin(), src.end());
 }
 
 inline void append_array_move(array::raw_array& dst, array& src)
 {
-    dst.reserve(dst.size() + src.size());
+    reserve_for_append(dst, src.size());
     dst.insert(dst.end(), std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
 }
 } // namespace _array_impl_detail
-- 
2.43.0

