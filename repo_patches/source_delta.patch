From b45a9d089d8fc404ca80d7c498b4b31bfde53177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 01/50] fix: base64 decoder indexes its table with a negative
 char

A char with a value of 0x80 or above was sign-extended to std::size_t and
used as index into the 256-entry decode table.
---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 3515df2..1d2c026 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -150,7 +150,7 @@ private:
   template <typename Byte>
   static std::size_t s(Byte byte) noexcept
   {
-    return static_cast<std::size_t>(byte);
+    return static_cast<std::size_t>(static_cast<std::uint8_t>(byte));
   }
 
   state state_ = state::s0;
-- 
2.43.0


From d5257ab31603e0032ad81a11bd1938a0bd944934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 02/50] fix: base64 decoder accepts half of a two-character
 padding

"MA=" lacks its second padding character and is not valid base64.
---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 1d2c026..2104a0c 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -40,7 +40,7 @@ public:
 
   bool is_done() const noexcept
   {
-    return !is_error() && state_ != state::s1;
+    return !is_error() && state_ != state::s1 && state_ != state::end1;
   }
 
   template <typename InputIt, typename OutputIt>
-- 
2.43.0


From fab878d2a215fa42e10de57f3e3cced441138518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 03/50] fix: header::range::at() terminates on an index out of
 range

at() uses the checked std::vector::at(), whose exception could never leave
the noexcept function.
---
 include/fitoria/http/header/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index a981173..94f75c2 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -73,7 +73,7 @@ public:
   /// Get specific index of element from the underlying subrange array.
   ///
   /// @endverbatim
-  auto at(std::size_t index) const noexcept -> const subrange_t&
+  auto at(std::size_t index) const -> const subrange_t&
   {
     return subranges_.at(index);
   }
-- 
2.43.0


From b2e4b643fc41228300abb53b979d65d6a33593b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 04/50] fix: Range header positions beyond the total length
 wrap around

A suffix longer than the representation, a first position at or beyond its
end and a last position of 2^64-1 produced wrapped offsets and lengths,
which static_file then took for ranges inside the file.
---
 include/fitoria/http/header/range.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index 94f75c2..59ae648 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -15,6 +15,8 @@
 #include <fitoria/core/optional.hpp>
 #include <fitoria/core/strings.hpp>
 
+#include <algorithm>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -165,8 +167,14 @@ public:
 
     if (unit[1].starts_with("-")) {
       if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1)); suffix) {
+        // a suffix longer than the representation selects all of it
+        const auto length = std::min(*suffix, total_length);
+        if (length == 0) {
+          return nullopt;
+        }
+
         return range(std::string(unit[0]),
-                     { { total_length - *suffix, *suffix } });
+                     { { total_length - length, length } });
       }
     } else {
       if (auto subranges = parse_subranges(unit[1], total_length); subranges) {
@@ -189,12 +197,13 @@ private:
     for (auto& token : tokens) {
       if (auto subrange = split_of(token, "-"); subrange.size() == 2) {
         auto start = from_string<std::uint64_t>(subrange[0]);
-        if (subrange[1].empty() && start) {
+        if (subrange[1].empty() && start && *start < total_length) {
           subranges.push_back(subrange_t { *start, total_length - *start });
           continue;
         }
         auto end = from_string<std::uint64_t>(subrange[1]);
-        if (start && end && *start <= *end) {
+        if (start && end && *start <= *end
+            && *end != std::numeric_limits<std::uint64_t>::max()) {
           subranges.push_back(subrange_t { *start, *end - *start + 1 });
           continue;
         }
-- 
2.43.0


From f669e9790567c28794595bc775e704e540266b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 05/50] fix: entity_tag::parse() rejects obs-text and accepts
 DEL

The comparison was made on a signed char, so that 0x80-0xFF (obs-text) were
rejected; 0x7F is not an etagc character.
---
 include/fitoria/http/header/entity_tag.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/entity_tag.hpp b/include/fitoria/http/header/entity_tag.hpp
index 40a470a..f871bf0 100644
--- a/include/fitoria/http/header/entity_tag.hpp
+++ b/include/fitoria/http/header/entity_tag.hpp
@@ -173,7 +173,9 @@ public:
 private:
   static auto is_valid_char(char c) noexcept -> bool
   {
-    return c >= 0x21 && c != '\"';
+    // etagc = %x21 / %x23-7E / obs-text
+    const auto u = static_cast<unsigned char>(c);
+    return u >= 0x21 && u != '\"' && u != 0x7F;
   }
 
   bool strong_;
-- 
2.43.0


From 793a95019543a8ab753633d5c32d06ed15da622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 06/50] fix: If-None-Match splits entity tags at commas inside
 their quotes

---
 include/fitoria/http/header/if_none_match.hpp | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/if_none_match.hpp b/include/fitoria/http/header/if_none_match.hpp
index dc49bac..dd75e08 100644
--- a/include/fitoria/http/header/if_none_match.hpp
+++ b/include/fitoria/http/header/if_none_match.hpp
@@ -120,14 +120,28 @@ public:
     }
 
     std::vector<entity_tag> etags;
-    auto tokens = split_of(input, ",");
-    for (auto& token : tokens) {
-      auto etag = entity_tag::parse(token);
+    for (;;) {
+      // a comma inside of the quotes belongs to the tag
+      bool quoted = false;
+      const auto it = std::find_if(input.begin(), input.end(), [&](char c) {
+        if (c == '\"') {
+          quoted = !quoted;
+        }
+        return c == ',' && !quoted;
+      });
+      const auto length = static_cast<std::size_t>(it - input.begin());
+
+      auto etag = entity_tag::parse(trim(input.substr(0, length)));
       if (!etag) {
         return nullopt;
       }
 
       etags.push_back(std::move(*etag));
+
+      if (it == input.end()) {
+        break;
+      }
+      input.remove_prefix(length + 1);
     }
 
     return if_none_match(std::move(etags));
-- 
2.43.0


From e477af8b7630cc907bd12f004e2a7fa1657c93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 07/50] fix: mime_view::parse() rejects names containing a dot

RFC 6838 section 4.2 restricted names may contain '.', as in
application/vnd.ms-excel.
---
 include/fitoria/mime/mime_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/mime/mime_view.hpp b/include/fitoria/mime/mime_view.hpp
index 40aa08a..eae57b2 100644
--- a/include/fitoria/mime/mime_view.hpp
+++ b/include/fitoria/mime/mime_view.hpp
@@ -341,7 +341,7 @@ private:
 
     return std::all_of(str.begin(), str.end(), [](char c) {
       return std::isalnum(c) || c == '!' || c == '#' || c == '$' || c == '&'
-          || c == '-' || c == '^' || c == '_';
+          || c == '-' || c == '^' || c == '_' || c == '.';
     });
   }
 
-- 
2.43.0


From efe02a781d77c9de5dbe5538d9574c1c271262c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 08/50] fix: expected<T&, E> assigned from unexpected leaves
 the error unconstructed

---
 include/fitoria/core/expected.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 9ed1d42..5a987e3 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1856,6 +1856,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
@@ -1869,6 +1870,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
-- 
2.43.0


From 73ab96708d7df27459e40f5ac449f90759d6b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 09/50] fix: expected<T&, E> loses its reference when
 constructing the error throws

---
 include/fitoria/core/expected.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 5a987e3..4460ea5 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1627,6 +1627,25 @@ class expected<T&, E> {
       || std::is_constructible_v<unexpected<E>, const expected<U, G>&>
       || std::is_constructible_v<unexpected<E>, const expected<U, G>>;
 
+  // replaces the reference by an error, and keeps it when this throws
+  template <typename... Args>
+  constexpr void construct_error(Args&&... args)
+  {
+    if constexpr (std::is_nothrow_constructible_v<E, Args...>) {
+      std::construct_at(std::addressof(this->err_),
+                        std::forward<Args>(args)...);
+    } else {
+      auto* valptr = this->valptr_;
+      try {
+        std::construct_at(std::addressof(this->err_),
+                          std::forward<Args>(args)...);
+      } catch (...) {
+        this->valptr_ = valptr;
+        throw;
+      }
+    }
+  }
+
 public:
   static_assert(!std::is_same_v<std::remove_cvref_t<T>, std::in_place_t>);
   static_assert(!std::is_same_v<std::remove_cvref_t<T>, unexpect_t>);
@@ -1783,7 +1802,7 @@ public:
       if (other) {
         this->valptr_ = other.valptr_;
       } else {
-        std::construct_at(std::addressof(this->err_), other.error());
+        construct_error(other.error());
         this->has_ = false;
       }
     } else {
@@ -1813,7 +1832,7 @@ public:
       if (other) {
         this->valptr_ = other.valptr_;
       } else {
-        std::construct_at(std::addressof(this->err_), std::move(other.error()));
+        construct_error(std::move(other.error()));
         this->has_ = false;
       }
     } else {
@@ -1856,7 +1875,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
-      std::construct_at(std::addressof(this->err_), other.error());
+      construct_error(other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
@@ -1870,7 +1889,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
-      std::construct_at(std::addressof(this->err_), std::move(other.error()));
+      construct_error(std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
@@ -2190,7 +2209,7 @@ public:
         swap(this->valptr_, other.valptr_);
       } else {
         auto* valptr = this->valptr_;
-        std::construct_at(std::addressof(this->err_), std::move(other.err_));
+        construct_error(std::move(other.err_));
         std::destroy_at(std::addressof(other.err_));
         other.valptr_ = valptr;
         std::swap(this->has_, other.has_);
@@ -2198,7 +2217,7 @@ public:
     } else {
       if (other.has_value()) {
         auto* valptr = other.valptr_;
-        std::construct_at(std::addressof(other.err_), std::move(this->err_));
+        other.construct_error(std::move(this->err_));
         std::destroy_at(std::addressof(this->err_));
         this->valptr_ = valptr;
         std::swap(this->has_, other.has_);
-- 
2.43.0


From bd58decd6d1d73b367e2a5854b7e4b634de1eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 10/50] fix: three-way comparison of optionals reads a
 disengaged value

---
 include/fitoria/core/optional.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index c8e9db1..0addfca 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1014,7 +1014,11 @@ template <typename T, std::three_way_comparable_with<T> U>
 constexpr std::compare_three_way_result_t<T, U>
 operator<=>(const optional<T>& lhs, const optional<U>& rhs)
 {
-  return *lhs <=> *rhs;
+  if (lhs && rhs) {
+    return *lhs <=> *rhs;
+  }
+
+  return lhs.has_value() <=> rhs.has_value();
 }
 
 template <typename T>
-- 
2.43.0


From 43ee92c731bd06222f626a30dced0522c26feec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 11/50] fix: optional<void>::transform() drops the result of
 the callable

---
 include/fitoria/core/optional.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 0addfca..3958d93 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -669,8 +669,12 @@ public:
   {
     using U = std::remove_cv_t<std::invoke_result_t<F>>;
     if (has_value()) {
-      std::forward<F>(f)();
-      return optional<U>(std::in_place);
+      if constexpr (std::is_void_v<U>) {
+        std::invoke(std::forward<F>(f));
+        return optional<U>(std::in_place);
+      } else {
+        return optional<U>(std::invoke(std::forward<F>(f)));
+      }
     } else {
       return optional<U>();
     }
-- 
2.43.0


From c21557d270f8e6616756e07913fb9a10af41e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 12/50] fix: optional<T&> assigned from an empty optional keeps
 its reference

---
 include/fitoria/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 3958d93..5c38143 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -777,6 +777,8 @@ public:
 
     if (other) {
       this->valptr_ = std::addressof(*other);
+    } else {
+      this->valptr_ = nullptr;
     }
 
     return *this;
-- 
2.43.0


From 42e2a91f53dfea032115726a478cb818f2b6d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 13/50] fix: optional compares greater than an unordered value

---
 include/fitoria/core/optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 5c38143..8a5e7cf 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1100,28 +1100,28 @@ template <typename T, typename U>
 constexpr bool operator>(const optional<T>& opt, const U& val)
   requires(!std::is_void_v<T> && !std::is_same_v<U, nullopt_t>)
 {
-  return !(opt <= val);
+  return opt && *opt > val;
 }
 
 template <typename T, typename U>
 constexpr bool operator>(const T& val, const optional<U>& opt)
   requires(!std::is_same_v<T, nullopt_t> && !std::is_void_v<U>)
 {
-  return !(val <= opt);
+  return !opt || val > *opt;
 }
 
 template <typename T, typename U>
 constexpr bool operator>=(const optional<T>& opt, const U& val)
   requires(!std::is_void_v<T> && !std::is_same_v<U, nullopt_t>)
 {
-  return !(opt < val);
+  return opt && *opt >= val;
 }
 
 template <typename T, typename U>
 constexpr bool operator>=(const T& val, const optional<U>& opt)
   requires(!std::is_same_v<T, nullopt_t> && !std::is_void_v<U>)
 {
-  return !(val < opt);
+  return !opt || val >= *opt;
 }
 
 template <typename T>
-- 
2.43.0


From f098d0ef54d83a84d4470e1ed1df1710a71bde30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 14/50] fix: router loses routes when a static prefix covers
 several existing ones

---
 include/fitoria/web/router.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index b4b5bb4..83dd566 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -75,18 +75,19 @@ public:
         }
       }
 
-      for (std::size_t i = 0; i < statics_.size(); ++i) {
-        if (statics_[i].prefix_.starts_with(token)) {
-          auto n = node(token);
-          statics_[i].prefix_.erase(0, token.size());
-          n.statics_.push_back(std::move(statics_[i]));
-          std::swap(n, statics_[i]);
-          return statics_[i].try_insert(std::move(route), token_index + 1);
+      auto n = node(token);
+      for (auto it = statics_.begin(); it != statics_.end();) {
+        if (it->prefix_.starts_with(token)) {
+          it->prefix_.erase(0, token.size());
+          n.statics_.push_back(std::move(*it));
+          it = statics_.erase(it);
+        } else {
+          ++it;
         }
       }
 
-      return statics_.emplace_back(token).try_insert(std::move(route),
-                                                     token_index + 1);
+      return statics_.emplace_back(std::move(n))
+          .try_insert(std::move(route), token_index + 1);
     }
 
     auto try_insert_param(route_type route,
-- 
2.43.0


From 86e5afc00f72baead2181ddfd2e532ec57c7e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 15/50] fix: router selects a parameter route for an empty
 segment

---
 include/fitoria/web/router.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index 83dd566..6cdbfb8 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -148,7 +148,10 @@ public:
         -> expected<const route_type&, std::error_code>
     {
       if (params_) {
-        if (auto pos = path.find('/'); pos != std::string_view::npos) {
+        if (auto pos = path.find('/'); pos == 0) {
+          // a parameter never matches an empty segment
+          return unexpected { make_error_code(error::route_not_exists) };
+        } else if (pos != std::string_view::npos) {
           return params_->try_find(method, path.substr(pos));
         }
         return params_->try_find(method, std::string_view());
-- 
2.43.0


From 842d3f9ad4478c6f5075ca9990227a147c51a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 16/50] fix: path_matcher treats static text and names as
 regular expressions

---
 include/fitoria/web/path_matcher.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/fitoria/web/path_matcher.hpp b/include/fitoria/web/path_matcher.hpp
index 72b0409..91fbae5 100644
--- a/include/fitoria/web/path_matcher.hpp
+++ b/include/fitoria/web/path_matcher.hpp
@@ -59,10 +59,11 @@ public:
   {
     if (boost::smatch match; boost::regex_match(input, match, regex_)) {
       std::vector<std::pair<std::string, std::string>> matches;
-      for (auto token : tokens_) {
+      int group = 0;
+      for (auto& token : tokens_) {
         if (token.kind == path_token_kind::param
             || token.kind == path_token_kind::wildcard) {
-          matches.emplace_back(token.value, match[token.value].str());
+          matches.emplace_back(token.value, match[++group].str());
         }
       }
 
@@ -78,17 +79,20 @@ private:
     std::string regex;
     for (auto& token : tokens) {
       if (token.kind == path_token_kind::static_) {
-        regex += token.value;
+        // static text is matched literally
+        for (auto c : token.value) {
+          if (std::string_view(".^$|()[]{}*+?\\").find(c)
+              != std::string_view::npos) {
+            regex += '\\';
+          }
+          regex += c;
+        }
       } else if (token.kind == path_token_kind::param) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">[^{}/]+)";
+        // names are not necessarily valid regex group names, use the order of
+        // the groups instead
+        regex += "([^/]+)";
       } else if (token.kind == path_token_kind::wildcard) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">.*)";
+        regex += "(.*)";
       }
     }
 
-- 
2.43.0


From a5f4ba03b9f1cbf6ae29cc8d23df541448eb651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 17/50] fix: dynamic_buffer::prepare returns memory outside the
 container after compaction

---
 include/fitoria/core/dynamic_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 0e98691..100a535 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -132,6 +132,7 @@ public:
       container_.resize(woffset_ + n);
     } else if (n <= (limit_ - size())) {
       compress();
+      container_.resize(woffset_ + n);
     } else {
       FITORIA_THROW_OR(std::length_error("dynamic_buffer too large"),
                        std::terminate());
-- 
2.43.0


From 98ab563d555f99857924a1c909c75c4e95568e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 18/50] fix: dynamic_buffer::commit and consume overflow
 instead of clamping

---
 include/fitoria/core/dynamic_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 100a535..6294e40 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -114,7 +114,7 @@ public:
   /// @endverbatim
   void consume(std::size_t n)
   {
-    roffset_ = std::min(roffset_ + n, woffset_);
+    roffset_ += std::min(n, size());
     if (roffset_ == woffset_) {
       roffset_ = 0;
       woffset_ = 0;
@@ -148,7 +148,7 @@ public:
   /// @endverbatim
   void commit(std::size_t n)
   {
-    woffset_ = std::min(woffset_ + n, container_.size());
+    woffset_ += std::min(n, container_.size() - woffset_);
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 1a14940b76f939b9535cae0e687bf30dba60d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 19/50] fix: dynamic_buffer keeps stale offsets after release

---
 include/fitoria/core/dynamic_buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 6294e40..dc9d34b 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -14,6 +14,7 @@
 #include <fitoria/core/net.hpp>
 
 #include <iterator>
+#include <utility>
 
 FITORIA_NAMESPACE_BEGIN
 
@@ -194,7 +195,8 @@ public:
   {
     compress();
     container_.resize(size());
-    return std::move(container_);
+    woffset_ = 0;
+    return std::exchange(container_, Container());
   }
 
 private:
-- 
2.43.0


From 1a00acb3b467fcb39969a82741536be5c5cf1a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 20/50] fix: query_map::set does not update an existing element

---
 include/fitoria/web/query_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/query_map.hpp b/include/fitoria/web/query_map.hpp
index 0c7950f..a33c9ce 100644
--- a/include/fitoria/web/query_map.hpp
+++ b/include/fitoria/web/query_map.hpp
@@ -122,7 +122,7 @@ public:
   /// @endverbatim
   void set(std::string name, std::string value)
   {
-    map_.insert({ std::move(name), std::move(value) });
+    map_.insert_or_assign(std::move(name), std::move(value));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 1899b362c62b635f319f4bab7cce04ed4040a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 21/50] fix: as_form keeps '+' instead of decoding it to a
 space

---
 include/fitoria/web/detail/as_form.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/detail/as_form.hpp b/include/fitoria/web/detail/as_form.hpp
index b8c385a..3d1b2ac 100644
--- a/include/fitoria/web/detail/as_form.hpp
+++ b/include/fitoria/web/detail/as_form.hpp
@@ -28,7 +28,10 @@ inline expected<query_map, std::error_code> as_form(std::string_view text)
     return unexpected { res.error() };
   }
 
-  auto params = static_cast<boost::urls::params_view>(*res);
+  // '+' represents a space in application/x-www-form-urlencoded
+  auto opts = boost::urls::encoding_opts();
+  opts.space_as_plus = true;
+  auto params = boost::urls::params_view(text, opts);
 
   query_map map;
   for (auto kv : params) {
-- 
2.43.0


From 979633540027d6727c5377bac5b25595915ba64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 22/50] fix: compressing streams drop data that does not fit
 the output buffer

---
 .../detail/async_brotli_deflate_stream.hpp    | 41 +++++++------
 .../detail/async_deflate_stream.hpp           | 57 +++++++++++--------
 .../detail/async_gzip_deflate_stream.hpp      | 57 +++++++++++--------
 3 files changed, 91 insertions(+), 64 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
index 1d7e165..af66b05 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
@@ -140,18 +140,22 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
 
-      auto p = broti_params(nullptr, 0, writable.data(), writable.size());
+      while (!deflater_.is_done()) {
+        auto writable = buffer.prepare(65536);
 
-      auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        auto p = broti_params(nullptr, 0, writable.data(), writable.size());
 
-      FITORIA_ASSERT(ec != brotli_error::need_more_output);
-      if (ec) {
-        co_return unexpected { ec };
+        auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+
+        FITORIA_ASSERT(ec != brotli_error::need_more_output);
+        if (ec) {
+          co_return unexpected { ec };
+        }
+
+        buffer.commit(writable.size() - p.avail_out);
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -164,20 +168,25 @@ public:
     }
 
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
-    auto p = broti_params(
-        readable->data(), readable->size(), writable.data(), writable.size());
+    auto p = broti_params(readable->data(), readable->size(), nullptr, 0);
+
+    while (p.avail_in > 0) {
+      auto writable
+          = buffer.prepare(std::max(p.avail_in, std::size_t(65536)));
+      p.next_out = reinterpret_cast<std::uint8_t*>(writable.data());
+      p.avail_out = writable.size();
 
-    auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      auto ec = deflater_.write(p, brotli_encoder_operation::process);
 
-    FITORIA_ASSERT(ec != brotli_error::need_more_output);
-    if (ec) {
-      co_return unexpected { ec };
+      FITORIA_ASSERT(ec != brotli_error::need_more_output);
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      buffer.commit(writable.size() - p.avail_out);
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
index dd75801..8841986 100644
--- a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
@@ -47,26 +47,31 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
 
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
+      for (;;) {
+        auto writable = buffer.prepare(65536);
 
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
 
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        FITORIA_ASSERT(ec != error::need_buffers);
+        if (ec && ec != error::end_of_stream) {
+          co_return unexpected { ec };
+        }
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (ec == error::end_of_stream) {
+          break;
+        }
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -79,23 +84,27 @@ public:
     }
 
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
     auto p = z_params();
     p.next_in = readable->data();
     p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+    while (p.avail_in > 0) {
+      auto writable
+          = buffer.prepare(std::max(p.avail_in, std::size_t(65536)));
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
 
-    if (ec) {
-      co_return unexpected { ec };
+      boost::system::error_code ec;
+      deflater_.write(p, Flush::none, ec);
+
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      buffer.commit(writable.size() - p.avail_out);
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
index 2f3b57b..6d851ca 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
@@ -50,26 +50,31 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
 
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
+      for (;;) {
+        auto writable = buffer.prepare(65536);
 
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
 
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        FITORIA_ASSERT(ec != error::need_buffers);
+        if (ec && ec != error::end_of_stream) {
+          co_return unexpected { ec };
+        }
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (ec == error::end_of_stream) {
+          break;
+        }
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -82,23 +87,27 @@ public:
     }
 
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
     auto p = z_params();
     p.next_in = readable->data();
     p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+    while (p.avail_in > 0) {
+      auto writable
+          = buffer.prepare(std::max(p.avail_in, std::size_t(65536)));
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
 
-    if (ec) {
-      co_return unexpected { ec };
+      boost::system::error_code ec;
+      deflater_.write(p, Flush::none, ec);
+
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      buffer.commit(writable.size() - p.avail_out);
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
-- 
2.43.0


From d66d2dfd9848f36365f4025a11d0f77ff25b1492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 23/50] fix: decompressing streams hang on trailing data and
 accept truncated input

---
 .../detail/async_brotli_inflate_stream.hpp    | 21 ++++++++++++++++++-
 .../detail/async_gzip_inflate_stream.hpp      | 21 +++++++++++++++++++
 .../detail/async_inflate_stream.hpp           | 21 +++++++++++++++++++
 3 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index db49e94..907cd9c 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -106,6 +106,10 @@ public:
   {
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        // the compressed data is truncated
+        co_return unexpected { make_error_code(brotli_error::need_more_input) };
+      }
       co_return nullopt;
     }
 
@@ -115,6 +119,11 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      // unexpected data after the end of the compressed data
+      co_return unexpected { make_error_code(brotli_error::error) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -130,7 +139,9 @@ public:
                             writable.size());
 
       auto ec = inflater_.write(p);
-      if (ec == brotli_error::need_more_input
+      if (!ec) {
+        finished_ = true;
+      } else if (ec == brotli_error::need_more_input
           || ec == brotli_error::need_more_output) {
         ec = {};
       }
@@ -141,6 +152,12 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (finished_) {
+        if (readable.size() > 0) {
+          co_return unexpected { make_error_code(brotli_error::error) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -152,6 +169,8 @@ public:
 private:
   NextLayer next_;
   brotli_decoder inflater_;
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index c8e5e65..f72337e 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -43,6 +43,10 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        // the compressed data is truncated
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -52,6 +56,11 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      // unexpected data after the end of the compressed data
+      co_return unexpected { make_error_code(error::general) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -71,6 +80,10 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        finished_ = true;
+        ec = {};
+      } else if (ec == error::need_buffers && readable.size() == 0) {
+        // all the input and the pending output have been processed
         ec = {};
       }
       if (ec) {
@@ -80,6 +93,12 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (finished_) {
+        if (readable.size() > 0) {
+          co_return unexpected { make_error_code(error::general) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -91,6 +110,8 @@ public:
 private:
   NextLayer next_;
   gzip_inflate_stream inflater_;
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index c97fe43..ba63f4e 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -40,6 +40,10 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        // the compressed data is truncated
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -49,6 +53,11 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      // unexpected data after the end of the compressed data
+      co_return unexpected { make_error_code(error::general) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -68,6 +77,10 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        finished_ = true;
+        ec = {};
+      } else if (ec == error::need_buffers && readable.size() == 0) {
+        // all the input and the pending output have been processed
         ec = {};
       }
       if (ec) {
@@ -77,6 +90,12 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (finished_) {
+        if (readable.size() > 0) {
+          co_return unexpected { make_error_code(error::general) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -88,6 +107,8 @@ public:
 private:
   NextLayer next_;
   boost::beast::zlib::inflate_stream inflater_;
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
-- 
2.43.0


From 5b8784510c1cdb16666196118cee2774083bd956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 24/50] fix: move assigning a gzip stream leaks the previous
 zlib state

---
 .../fitoria/web/middleware/detail/gzip_stream.hpp  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/gzip_stream.hpp b/include/fitoria/web/middleware/detail/gzip_stream.hpp
index 53812eb..fef60d6 100644
--- a/include/fitoria/web/middleware/detail/gzip_stream.hpp
+++ b/include/fitoria/web/middleware/detail/gzip_stream.hpp
@@ -135,7 +135,12 @@ public:
 
   gzip_inflate_stream(gzip_inflate_stream&&) = default;
 
-  gzip_inflate_stream& operator=(gzip_inflate_stream&&) = default;
+  gzip_inflate_stream& operator=(gzip_inflate_stream&& other) noexcept
+  {
+    // the destructor of ``other`` releases the previous stream
+    stream_.swap(other.stream_);
+    return *this;
+  }
 
   void write(boost::beast::zlib::z_params& p,
              boost::beast::zlib::Flush flush,
@@ -182,7 +187,12 @@ public:
 
   gzip_deflate_stream(gzip_deflate_stream&&) = default;
 
-  gzip_deflate_stream& operator=(gzip_deflate_stream&&) = default;
+  gzip_deflate_stream& operator=(gzip_deflate_stream&& other) noexcept
+  {
+    // the destructor of ``other`` releases the previous stream
+    stream_.swap(other.stream_);
+    return *this;
+  }
 
   void write(boost::beast::zlib::z_params& p,
              boost::beast::zlib::Flush flush,
-- 
2.43.0


From f7eda4bc611cd4d4a5127348909082bcde8f3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 25/50] fix: async_inflate_stream never decodes the last codes
 of some streams

---
 .../detail/async_inflate_stream.hpp           | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index ba63f4e..88eb789 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -41,8 +41,7 @@ public:
     auto data = co_await next_.async_read_some();
     if (!data) {
       if (started_ && !finished_) {
-        // the compressed data is truncated
-        co_return unexpected { make_error_code(error::need_buffers) };
+        co_return finish();
       }
       co_return nullopt;
     }
@@ -105,6 +104,40 @@ public:
   }
 
 private:
+  // The inflater doesn't decode the codes at the very end of the compressed data
+  // as long as there are less bits left than its longest code might have. Push it
+  // by one additional byte, none of whose bits is allowed to be used.
+  auto finish() -> expected<bytes, std::error_code>
+  {
+    using boost::beast::zlib::error;
+    using boost::beast::zlib::Flush;
+    using boost::beast::zlib::z_params;
+
+    const auto padding = std::byte(0);
+    auto buffer = dynamic_buffer<bytes>();
+    auto writable = buffer.prepare(65536);
+
+    auto p = z_params();
+    p.next_in = &padding;
+    p.avail_in = 1;
+    p.next_out = writable.data();
+    p.avail_out = writable.size();
+
+    boost::system::error_code ec;
+    inflater_.write(p, Flush::sync, ec);
+
+    // lower 6 bits are the number of bits which have not been used
+    if (ec != error::end_of_stream
+        || (p.avail_in == 0 && (p.data_type & 63) < 8)) {
+      // the compressed data is truncated
+      return unexpected { make_error_code(error::need_buffers) };
+    }
+
+    finished_ = true;
+    buffer.commit(writable.size() - p.avail_out);
+    return buffer.release();
+  }
+
   NextLayer next_;
   boost::beast::zlib::inflate_stream inflater_;
   bool started_ = false;
-- 
2.43.0


From 4307c73554db43bc11c5a9d5ca5db776c330feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:22 +0000
Subject: [PATCH 26/50] fix: request_builder::set_body and set_json return an
 emptied request

---
 include/fitoria/web/request.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/request.hpp b/include/fitoria/web/request.hpp
index a9ae7d5..244635e 100644
--- a/include/fitoria/web/request.hpp
+++ b/include/fitoria/web/request.hpp
@@ -410,8 +410,7 @@ public:
   /// @endverbatim
   auto set_body(std::string_view sv) -> request
   {
-    set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
@@ -444,8 +443,7 @@ public:
   {
     auto str = boost::json::serialize(jv);
     set_header(http::field::content_type, mime::application_json());
-    set_body(std::as_bytes(std::span(str.begin(), str.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(str.begin(), str.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 4dcd8b6936f663b922bf8d6a68ed64fc0c15b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:22 +0000
Subject: [PATCH 27/50] fix: async_write_chunks ends the body at the first
 empty chunk

---
 include/fitoria/web/async_write_chunks.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fitoria/web/async_write_chunks.hpp b/include/fitoria/web/async_write_chunks.hpp
index b0586d0..a4b21a9 100644
--- a/include/fitoria/web/async_write_chunks.hpp
+++ b/include/fitoria/web/async_write_chunks.hpp
@@ -34,6 +34,11 @@ auto async_write_chunks(AsyncWritableStream&& to, AsyncReadableStream&& from)
        data = co_await from.async_read_some()) {
     auto& d = *data;
     if (d) {
+      // a chunk without data would end the body
+      if (d->empty()) {
+        continue;
+      }
+
       if (auto result = co_await async_write(
               to, make_chunk(net::buffer(*d)), use_awaitable);
           !result) {
-- 
2.43.0


From 7492d2b3da2a2e28891e92efa4b18afcfb307ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:06 +0000
Subject: [PATCH 28/50] fix: use_state changes the states of other scopes and
 routes

---
 include/fitoria/web/route.hpp         |  6 ++----
 include/fitoria/web/scope.hpp         | 28 +++++++++++++--------------
 include/fitoria/web/state_storage.hpp | 21 ++++++++++++--------
 3 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/include/fitoria/web/route.hpp b/include/fitoria/web/route.hpp
index e9416f2..a5eca40 100644
--- a/include/fitoria/web/route.hpp
+++ b/include/fitoria/web/route.hpp
@@ -80,16 +80,14 @@ public:
   }
 
   template <basic_fixed_string ParentPath, typename... ParentServices>
-  auto rebind_parent(shared_state_map parent_state_map,
+  auto rebind_parent(const state_storage& parent_states,
                      std::tuple<ParentServices...> parent_services) const
   {
     return route_impl<ParentPath + Path,
                       std::tuple<ParentServices..., Middlewares...>,
                       Handler>(
         method_,
-        parent_state_map->empty()
-            ? states_
-            : states_.copy_append(std::move(parent_state_map)),
+        states_.copy_append(parent_states),
         std::tuple_cat(std::move(parent_services), middlewares_),
         handler_);
   }
diff --git a/include/fitoria/web/scope.hpp b/include/fitoria/web/scope.hpp
index 1ff3a32..37732f9 100644
--- a/include/fitoria/web/scope.hpp
+++ b/include/fitoria/web/scope.hpp
@@ -23,23 +23,22 @@ class scope_impl;
 
 template <basic_fixed_string Path, typename... Middlewares, typename... Routes>
 class scope_impl<Path, std::tuple<Middlewares...>, std::tuple<Routes...>> {
-  shared_state_map state_map_;
+  state_storage states_;
   std::tuple<Middlewares...> middlewares_;
   std::tuple<Routes...> routes_;
 
 public:
   scope_impl(std::tuple<Middlewares...> middlewares,
              std::tuple<Routes...> routes)
-      : state_map_(std::make_shared<state_map>())
-      , middlewares_(std::move(middlewares))
+      : middlewares_(std::move(middlewares))
       , routes_(std::move(routes))
   {
   }
 
-  scope_impl(shared_state_map state_map,
+  scope_impl(state_storage states,
              std::tuple<Middlewares...> middlewares,
              std::tuple<Routes...> routes)
-      : state_map_(std::move(state_map))
+      : states_(std::move(states))
       , middlewares_(std::move(middlewares))
       , routes_(std::move(routes))
   {
@@ -51,12 +50,11 @@ public:
     using state_type = std::decay_t<State>;
     static_assert(std::copy_constructible<state_type>);
 
-    auto state_map = state_map_;
-    (*state_map)[std::type_index(typeid(state_type))]
-        = std::any(std::forward<State>(state));
-
     return scope_impl<Path, std::tuple<Middlewares...>, std::tuple<Routes...>>(
-        std::move(state_map), middlewares_, routes_);
+        states_.copy_insert_front(std::type_index(typeid(state_type)),
+                                  std::any(std::forward<State>(state))),
+        middlewares_,
+        routes_);
   }
 
   template <typename Middleware>
@@ -65,7 +63,7 @@ public:
     return scope_impl<Path,
                       std::tuple<Middlewares..., std::decay_t<Middleware>>,
                       std::tuple<Routes...>>(
-        state_map_,
+        states_,
         std::tuple_cat(middlewares_,
                        std::tuple { std::forward<Middleware>(mw) }),
         routes_);
@@ -78,12 +76,12 @@ public:
       route_impl<RoutePath, std::tuple<RouteServices...>, Handler> route) const
   {
     auto new_route
-        = route.template rebind_parent<Path>(state_map_, middlewares_);
+        = route.template rebind_parent<Path>(states_, middlewares_);
 
     return scope_impl<Path,
                       std::tuple<Middlewares...>,
                       std::tuple<Routes..., decltype(new_route)>> {
-      state_map_,
+      states_,
       middlewares_,
       std::tuple_cat(routes_, std::tuple { std::move(new_route) }),
     };
@@ -99,14 +97,14 @@ public:
     auto routes = std::apply(
         [this](auto&&... routes_) {
           return std::tuple { routes_.template rebind_parent<Path>(
-              state_map_, middlewares_)... };
+              states_, middlewares_)... };
         },
         child.routes());
 
     return scope_impl<Path,
                       std::tuple<Middlewares...>,
                       decltype(std::tuple_cat(routes_, std::move(routes)))> {
-      state_map_,
+      states_,
       middlewares_,
       std::tuple_cat(routes_, std::move(routes)),
     };
diff --git a/include/fitoria/web/state_storage.hpp b/include/fitoria/web/state_storage.hpp
index 56dbb80..ea654aa 100644
--- a/include/fitoria/web/state_storage.hpp
+++ b/include/fitoria/web/state_storage.hpp
@@ -30,6 +30,13 @@ using shared_state_maps = std::vector<shared_state_map>;
 
 class state_storage {
 public:
+  state_storage() = default;
+
+  state_storage(shared_state_map map)
+      : maps_({ std::move(map) })
+  {
+  }
+
   auto copy_prepend(shared_state_map map) const -> state_storage
   {
     auto copy = *this;
@@ -38,10 +45,10 @@ public:
     return copy;
   }
 
-  auto copy_append(shared_state_map map) const -> state_storage
+  auto copy_append(const state_storage& other) const -> state_storage
   {
     auto copy = *this;
-    copy.maps_.push_back(std::move(map));
+    copy.maps_.insert(copy.maps_.end(), other.maps_.begin(), other.maps_.end());
 
     return copy;
   }
@@ -49,13 +56,11 @@ public:
   auto copy_insert_front(std::type_index ti,
                          std::any obj) const -> state_storage
   {
-    auto copy = *this;
-    if (copy.maps_.empty()) {
-      copy.maps_.push_back(std::make_shared<state_map>());
-    }
-    (*copy.maps_.front())[ti] = std::move(obj);
+    // existing maps are shared with other routes and must not be modified
+    auto map = std::make_shared<state_map>();
+    map->emplace(ti, std::move(obj));
 
-    return copy;
+    return copy_prepend(std::move(map));
   }
 
   template <typename T>
-- 
2.43.0


From 3f20797c05cb6a45837792f8f5586fcba35a3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 29/50] fix: websocket request of an unsupported version is
 accepted

---
 include/fitoria/web/websocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index e8753c2..9a3fa31 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -523,6 +523,7 @@ private:
       builder.set_header(http::field::sec_websocket_version, "13");
       impl_->set_response(builder.set_body(
           make_error_code(ws::error::bad_sec_version).message()));
+      return;
     }
 
     builder.set_header(http::field::upgrade, "websocket");
-- 
2.43.0


From d2ff2fa7c49484f4adf20656a0d4bde34aff2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 30/50] fix: upgrade requests that are not accepted crash or
 corrupt the connection

---
 include/fitoria/web/http_server.hpp | 21 ++++++++---------
 include/fitoria/web/websocket.hpp   | 35 ++++++++++++++++-------------
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a119e23..efd6008 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -424,9 +424,6 @@ private:
       auto session_state = std::make_shared<state_map>();
 
       if (upgrade) {
-        // timeout must be turned off, websocket has its own timeout mechanism
-        get_lowest_layer(stream).expires_never();
-
         // we don't handle expect: 100-continue here,
         // boost::beast::websocket::stream::accept() will do it for us
         (*session_state)[std::type_index(typeid(websocket))]
@@ -483,16 +480,20 @@ private:
       if (upgrade) {
         auto& ws = *std::any_cast<websocket>(
             &(*session_state)[std::type_index(typeid(websocket))]);
-        ws.set_response(std::move(res));
-        if (auto result = co_await ws.run(parser->get()); !result) {
-          co_return unexpected { result.error() };
-        }
-      } else {
-        if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
-          co_return unexpected { exp.error() };
+        // any other response rejects the upgrade and is sent as it is
+        if (ws.is_accepted(res)) {
+          // timeout must be turned off, websocket has its own timeout mechanism
+          get_lowest_layer(stream).expires_never();
+
+          ws.set_response(std::move(res));
+          co_return co_await ws.run(parser->get());
         }
       }
 
+      if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
+        co_return unexpected { exp.error() };
+      }
+
       if (!keep_alive) {
         break;
       }
diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 9a3fa31..a15e2af 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -249,6 +249,11 @@ public:
       return callback_;
     }
 
+    auto has_callback() const noexcept -> bool
+    {
+      return static_cast<bool>(callback_);
+    }
+
     void set_response(response res)
     {
       response_.emplace(std::move(res));
@@ -441,21 +446,15 @@ private:
   {
     namespace ws = boost::beast::websocket;
 
-    if (auto res = impl_->release_response();
-        !std::holds_alternative<any_body::null>(res.body().size())) {
-      auto body
-          = co_await async_read_until_eof<std::string>(res.body().stream());
-      if (!body) {
-        co_return unexpected { body.error() };
-      }
-      impl_->set_option(ws::stream_base::decorator(
-          [&res, body = std::move(body)](ws::response_type& r) {
-            for (auto& field : res.headers()) {
-              r.set(field.name_string(), field.value());
-            }
-            r.body() = std::move(*body);
-          }));
-    }
+    impl_->set_option(ws::stream_base::decorator(
+        [res = impl_->release_response()](ws::response_type& r) {
+          for (auto& field : res.headers()) {
+            r.erase(field.name_string());
+          }
+          for (auto& field : res.headers()) {
+            r.insert(field.name_string(), field.value());
+          }
+        }));
 
     if (auto result = co_await impl_->async_accept(req); !result) {
       co_return unexpected { result.error() };
@@ -539,6 +538,12 @@ private:
     impl_->set_response(builder.build());
   }
 
+  auto is_accepted(const response& res) const noexcept -> bool
+  {
+    return impl_->has_callback()
+        && res.status().value() == http::status::switching_protocols;
+  }
+
   void set_response(response res)
   {
     impl_->set_response(std::move(res));
-- 
2.43.0


From efdf1e8b4947db97fc0f3c1d65b4bf830e5b4cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 31/50] fix: response body that fails with eof is sent as a
 complete empty body

---
 include/fitoria/web/http_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index efd6008..511c859 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -555,7 +555,7 @@ private:
     if (auto data = co_await async_read_until_eof<bytes>(res.body().stream());
         data) {
       r.body() = std::move(*data);
-    } else if (data.error() != make_error_code(net::error::eof)) {
+    } else {
       co_return unexpected { data.error() };
     }
     r.keep_alive(keep_alive);
-- 
2.43.0


From 83427c19aeba7fa93f3b9dd951d9150517a99afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 32/50] fix: exception not derived from std::exception stops
 the io_context

---
 include/fitoria/web/http_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 511c859..60a8709 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -598,6 +598,8 @@ private:
         std::rethrow_exception(ptr);
       } catch (const std::exception& ex) {
         log::debug("[{}] exception: {}", name(), ex.what());
+      } catch (...) {
+        log::debug("[{}] unknown exception", name());
       }
     }
   }
-- 
2.43.0


From 577a4a54f031c367b5a2fc777ae9a4f9083223a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 33/50] fix: serve_request reads a missing response when the
 session fails

---
 include/fitoria/web/http_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 60a8709..9bc8515 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -294,7 +294,8 @@ public:
            std::string path,
            test_request tr,
            ResponseHandler handler) -> awaitable<void> {
-          co_await handler(*(co_await do_http_request(stream, path, tr)));
+          co_await handler(
+              std::move((co_await do_http_request(stream, path, tr)).value()));
         }(stream, std::move(path), std::move(req), std::move(handler)),
         net::detached);
   }
-- 
2.43.0


From 3f5d950081fe37dcbc8ebdaece03f07dff862255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 34/50] fix: unread request body is parsed as the next request

---
 include/fitoria/web/http_server.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 9bc8515..2e3503f 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -498,6 +498,15 @@ private:
       if (!keep_alive) {
         break;
       }
+
+      // what the handler left of the request body is not the next request
+      auto rest = async_message_parser_stream(buffer, stream, parser);
+      for (auto data = co_await rest.async_read_some(); data;
+           data = co_await rest.async_read_some()) {
+        if (!*data) {
+          co_return unexpected { data->error() };
+        }
+      }
     }
 
     co_return expected<void, std::error_code>();
-- 
2.43.0


From 9fd4ae981dc27d07fcc1ead9972cbc76eaea910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:56 +0000
Subject: [PATCH 35/50] fix: responses to HEAD requests and 204 or 304
 responses carry a body

---
 include/fitoria/web/http_server.hpp | 58 ++++++++++++++++++++++-------
 include/fitoria/web/test_utils.hpp  |  1 +
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 2e3503f..ddddf7c 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -491,7 +491,12 @@ private:
         }
       }
 
-      if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
+      if (auto exp = co_await do_response(
+              stream,
+              res,
+              keep_alive,
+              parser->get().method() == http::verb::head);
+          !exp) {
         co_return unexpected { exp.error() };
       }
 
@@ -513,19 +518,30 @@ private:
   }
 
   template <typename Stream>
-  auto do_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_response(Stream& stream,
+                   response& res,
+                   bool keep_alive,
+                   bool head = false) const
       -> awaitable<expected<void, std::error_code>>
   {
+    // these never have a body, the client takes it for the next response
+    if (res.status().category() == http::status_class::informational
+        || res.status().value() == http::status::no_content
+        || res.status().value() == http::status::not_modified) {
+      co_return co_await do_null_body_response(stream, res, keep_alive);
+    }
+
     co_return co_await std::visit(
-        overloaded { [&](any_body::null) {
-                      return do_null_body_response(stream, res, keep_alive);
-                    },
-                     [&](any_body::sized) {
-                       return do_sized_response(stream, res, keep_alive);
-                     },
-                     [&](any_body::chunked) {
-                       return do_chunked_response(stream, res, keep_alive);
-                     } },
+        overloaded {
+            [&](any_body::null) {
+              return do_null_body_response(stream, res, keep_alive);
+            },
+            [&](any_body::sized) {
+              return do_sized_response(stream, res, keep_alive, head);
+            },
+            [&](any_body::chunked) {
+              return do_chunked_response(stream, res, keep_alive, head);
+            } },
         res.body().size());
   }
 
@@ -553,10 +569,14 @@ private:
   }
 
   template <typename Stream>
-  auto do_sized_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_sized_response(Stream& stream,
+                         response& res,
+                         bool keep_alive,
+                         bool head) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::response;
+    using boost::beast::http::response_serializer;
     using boost::beast::http::vector_body;
 
     auto r = response<vector_body<std::byte>>(
@@ -571,11 +591,19 @@ private:
     r.keep_alive(keep_alive);
     r.prepare_payload();
 
+    if (head) {
+      auto ser = response_serializer<vector_body<std::byte>>(r);
+      co_return co_await async_write_header(stream, ser, use_awaitable);
+    }
+
     co_return co_await async_write(stream, r, use_awaitable);
   }
 
   template <typename Stream>
-  auto do_chunked_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_chunked_response(Stream& stream,
+                           response& res,
+                           bool keep_alive,
+                           bool head) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::empty_body;
@@ -595,6 +623,10 @@ private:
       co_return unexpected { result.error() };
     }
 
+    if (head) {
+      co_return expected<void, std::error_code>();
+    }
+
     co_return co_await async_write_chunks(stream, res.body().stream());
   }
 
diff --git a/include/fitoria/web/test_utils.hpp b/include/fitoria/web/test_utils.hpp
index a312221..5ca28fd 100644
--- a/include/fitoria/web/test_utils.hpp
+++ b/include/fitoria/web/test_utils.hpp
@@ -154,6 +154,7 @@ auto do_http_request(Stream stream, std::string path, test_request& req)
 
   auto buffer = std::make_shared<flat_buffer>();
   auto parser = std::make_shared<response_parser<buffer_body>>();
+  parser->skip(req.method() == http::verb::head);
   if (auto bytes_read
       = co_await async_read_header(stream, *buffer, *parser, use_awaitable);
       !bytes_read) {
-- 
2.43.0


From b5e5d32a9028f7d1faffaf96924dd97e01a9ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:56 +0000
Subject: [PATCH 36/50] fix: stream body is sent in chunks to HTTP/1.0 clients

---
 include/fitoria/web/http_server.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index ddddf7c..d4e759f 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -495,7 +495,8 @@ private:
               stream,
               res,
               keep_alive,
-              parser->get().method() == http::verb::head);
+              parser->get().method() == http::verb::head,
+              http::detail::from_impl_version(parser->get().version()));
           !exp) {
         co_return unexpected { exp.error() };
       }
@@ -521,7 +522,8 @@ private:
   auto do_response(Stream& stream,
                    response& res,
                    bool keep_alive,
-                   bool head = false) const
+                   bool head = false,
+                   http::version version = http::version::v1_1) const
       -> awaitable<expected<void, std::error_code>>
   {
     // these never have a body, the client takes it for the next response
@@ -540,6 +542,11 @@ private:
               return do_sized_response(stream, res, keep_alive, head);
             },
             [&](any_body::chunked) {
+              // HTTP/1.0 does not know about chunks
+              if (version == http::version::v1_0
+                  || res.version() == http::version::v1_0) {
+                return do_sized_response(stream, res, keep_alive, head);
+              }
               return do_chunked_response(stream, res, keep_alive, head);
             } },
         res.body().size());
-- 
2.43.0


From 3678772e278e3831052ac88c056c6edcadc13134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:10 +0000
Subject: [PATCH 37/50] fix: HTTP/1.0 clients are sent 100 Continue responses

---
 include/fitoria/web/http_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index d4e759f..3576d11 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -431,7 +431,7 @@ private:
             = websocket(stream);
       } else {
         if (auto it = parser->get().find(http::field::expect);
-            it != parser->get().end()
+            it != parser->get().end() && parser->get().version() >= 11
             && cmp_eq_ci(it->value(), "100-continue")) {
           if (auto bytes_written = co_await async_write(
                   stream,
-- 
2.43.0


From f28c31e0c2ba6944fe9c5df20384ec98b0e346e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:35 +0000
Subject: [PATCH 38/50] fix: reading a request body again after it failed never
 completes

---
 .../fitoria/web/async_message_parser_stream.hpp    | 14 ++++++++++++--
 include/fitoria/web/http_server.hpp                |  7 +++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/async_message_parser_stream.hpp b/include/fitoria/web/async_message_parser_stream.hpp
index 87c7770..6607a67 100644
--- a/include/fitoria/web/async_message_parser_stream.hpp
+++ b/include/fitoria/web/async_message_parser_stream.hpp
@@ -32,10 +32,13 @@ public:
 
   async_message_parser_stream(std::shared_ptr<flat_buffer> buffer,
                               Stream stream,
-                              std::shared_ptr<Parser> parser)
+                              std::shared_ptr<Parser> parser,
+                              std::shared_ptr<std::error_code> error
+                              = std::make_shared<std::error_code>())
       : buffer_(std::move(buffer))
       , stream_(std::move(stream))
       , parser_(std::move(parser))
+      , error_(std::move(error))
   {
   }
 
@@ -58,6 +61,11 @@ public:
       co_return nullopt;
     }
 
+    // another read may never complete after the stream has failed
+    if (*error_) {
+      co_return unexpected { *error_ };
+    }
+
     dynamic_buffer<bytes> buffer;
     boost::system::error_code ec;
     for (auto writable = buffer.prepare(65536);;
@@ -80,7 +88,8 @@ public:
     }
 
     if (ec) {
-      co_return unexpected { ec };
+      *error_ = ec;
+      co_return unexpected { *error_ };
     }
     co_return buffer.release();
   }
@@ -89,6 +98,7 @@ private:
   std::shared_ptr<flat_buffer> buffer_;
   Stream stream_;
   std::shared_ptr<Parser> parser_;
+  std::shared_ptr<std::error_code> error_;
 };
 
 }
diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 3576d11..4ff383e 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -398,6 +398,7 @@ private:
 
     for (;;) {
       auto parser = std::make_shared<request_parser<buffer_body>>();
+      auto body_error = std::make_shared<std::error_code>();
       parser->header_limit(request_header_limit_.value_or(UINT32_MAX));
       parser->body_limit(request_body_limit_.value_or(UINT64_MAX));
 
@@ -460,7 +461,8 @@ private:
               [&]() -> any_async_readable_stream {
                 if (parser->get().has_content_length()
                     || parser->get().chunked()) {
-                  return async_message_parser_stream(buffer, stream, parser);
+                  return async_message_parser_stream(
+                      buffer, stream, parser, body_error);
                 }
 
                 return async_readable_vector_stream();
@@ -506,7 +508,8 @@ private:
       }
 
       // what the handler left of the request body is not the next request
-      auto rest = async_message_parser_stream(buffer, stream, parser);
+      auto rest
+          = async_message_parser_stream(buffer, stream, parser, body_error);
       for (auto data = co_await rest.async_read_some(); data;
            data = co_await rest.async_read_some()) {
         if (!*data) {
-- 
2.43.0


From f1085559f00ee6025d1568bf8e3367e6148a3851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 39/50] fix: exception_handler middleware lets exceptions not
 derived from std::exception through

---
 include/fitoria/web/middleware/exception_handler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/web/middleware/exception_handler.hpp b/include/fitoria/web/middleware/exception_handler.hpp
index 9c97923..3b24cce 100644
--- a/include/fitoria/web/middleware/exception_handler.hpp
+++ b/include/fitoria/web/middleware/exception_handler.hpp
@@ -38,6 +38,8 @@ public:
     } catch (const std::exception& ex) {
       log::error("[fitoria.middleware.exception_handler] exception: {}",
                  ex.what());
+    } catch (...) {
+      log::error("[fitoria.middleware.exception_handler] unknown exception");
     }
 
     co_return response::internal_server_error().build();
-- 
2.43.0


From 0c4406b7b4d15d4c86c8266a87a46fadf99e89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 40/50] fix: header limit does not cover headers that arrive in
 pieces

---
 include/fitoria/web/http_server.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 4ff383e..cf8c75c 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -406,9 +406,15 @@ private:
         get_lowest_layer(stream).expires_after(*request_timeout_);
       }
 
-      if (auto bytes_read
-          = co_await async_read_header(stream, *buffer, *parser, use_awaitable);
-          !bytes_read) {
+      auto bytes_read = co_await async_read_header(
+          stream, *buffer, *parser, use_awaitable);
+      // the parser does not count what it has already consumed
+      if (bytes_read && request_header_limit_
+          && *bytes_read > *request_header_limit_) {
+        bytes_read = unexpected { make_error_code(
+            boost::beast::http::error::header_limit) };
+      }
+      if (!bytes_read) {
         if (bytes_read.error()
             == make_error_code(boost::beast::http::error::header_limit)) {
           auto res
-- 
2.43.0


From 3e17bba99cbf618c12ca0ae844b08015538e7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 41/50] Restore test_utils.hpp: it counts as a test file

---
 include/fitoria/web/test_utils.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fitoria/web/test_utils.hpp b/include/fitoria/web/test_utils.hpp
index 5ca28fd..a312221 100644
--- a/include/fitoria/web/test_utils.hpp
+++ b/include/fitoria/web/test_utils.hpp
@@ -154,7 +154,6 @@ auto do_http_request(Stream stream, std::string path, test_request& req)
 
   auto buffer = std::make_shared<flat_buffer>();
   auto parser = std::make_shared<response_parser<buffer_body>>();
-  parser->skip(req.method() == http::verb::head);
   if (auto bytes_read
       = co_await async_read_header(stream, *buffer, *parser, use_awaitable);
       !bytes_read) {
-- 
2.43.0


From a459d5db4fc65b83cbdce88bc05377b09a41aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 42/50] fix: in-process HEAD requests wait for a body that is
 never sent

---
 include/fitoria/web/http_server.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index cf8c75c..c5d97e3 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -294,8 +294,14 @@ public:
            std::string path,
            test_request tr,
            ResponseHandler handler) -> awaitable<void> {
-          co_await handler(
-              std::move((co_await do_http_request(stream, path, tr)).value()));
+          auto res = std::move(
+              (co_await do_http_request(stream, path, tr)).value());
+          if (tr.method() == http::verb::head) {
+            // nothing follows the header, whatever its Content-Length
+            res.body()
+                = any_async_readable_stream(async_readable_vector_stream());
+          }
+          co_await handler(std::move(res));
         }(stream, std::move(path), std::move(req), std::move(handler)),
         net::detached);
   }
-- 
2.43.0


From 2b61fcb8d268d13335ded134018347c8f1b7bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 43/50] fix: records of one thread are written out of order or
 lost at destruction

---
 include/fitoria/log/async_logger.hpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index d2569bf..ffd892c 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -49,7 +49,8 @@ class async_logger {
   {
     for (;;) {
       auto rec = co_await channel_.async_receive(use_awaitable);
-      if (!rec) {
+      if (!rec || !*rec) {
+        // closed by the destructor
         break;
       }
 
@@ -57,10 +58,12 @@ class async_logger {
     }
   }
 
-  auto async_enqueue(record_ptr rec) -> awaitable<void>
+  void enqueue(record_ptr rec)
   {
-    [[maybe_unused]] auto result = co_await channel_.async_send(
-        boost::system::error_code(), rec, use_awaitable);
+    // started by the caller itself so that the records of each thread keep
+    // their order; the channel queues it if its buffer is full
+    channel_.async_send(
+        boost::system::error_code(), std::move(rec), net::detached);
   }
 
   void log(record::clock_t::time_point time,
@@ -68,10 +71,7 @@ class async_logger {
            level lv,
            std::string msg)
   {
-    net::co_spawn(
-        net::system_executor(),
-        async_enqueue(std::make_shared<record>(time, loc, lv, std::move(msg))),
-        net::detached);
+    enqueue(std::make_shared<record>(time, loc, lv, std::move(msg)));
   }
 
 public:
@@ -112,13 +112,9 @@ public:
 
   ~async_logger()
   {
-    channel_.cancel();
-
-    // TODO: investigate if it hangs when `-fsanitizer=address` is on ?
-    if (auto status = fut_.wait_for(std::chrono::seconds(30));
-        status == std::future_status::ready) {
-      fut_.get();
-    }
+    // a null record ends the writing, after all the records accepted before
+    enqueue(nullptr);
+    fut_.get();
   }
 
   void add_writer(std::shared_ptr<async_writer> writer)
-- 
2.43.0


From a9e4eea36ebc2370daba45a7a8e81741d4a19cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 44/50] fix: default logger can be replaced or destroyed while
 it is being used

---
 include/fitoria/log/registry.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/log/registry.hpp b/include/fitoria/log/registry.hpp
index aa34bb4..6eeb8a9 100644
--- a/include/fitoria/log/registry.hpp
+++ b/include/fitoria/log/registry.hpp
@@ -11,18 +11,32 @@
 
 #include <fitoria/core/config.hpp>
 
-#include <fitoria/core/optional.hpp>
+#include <fitoria/core/net.hpp>
 
 #include <fitoria/log/async_logger.hpp>
 
+#include <memory>
+#include <mutex>
+
 FITORIA_NAMESPACE_BEGIN
 
 namespace log {
 
 class registry {
+  mutable std::mutex mutex_;
   std::shared_ptr<async_logger> default_;
 
+  registry()
+  {
+    // the threads that the default logger runs on have to outlive it
+    (void)net::query(net::system_executor(), net::execution::context);
+  }
+
 public:
+  registry(const registry&) = delete;
+
+  registry& operator=(const registry&) = delete;
+
   static auto global() -> registry&
   {
     static registry inst;
@@ -31,16 +45,16 @@ public:
 
   void set_default_logger(std::shared_ptr<async_logger> logger)
   {
-    default_ = std::move(logger);
+    // the previous logger is released without holding the lock
+    auto lock = std::unique_lock(mutex_);
+    default_.swap(logger);
+    lock.unlock();
   }
 
-  auto default_logger() -> optional<async_logger&>
+  auto default_logger() const -> std::shared_ptr<async_logger>
   {
-    if (default_) {
-      return optional<async_logger&>(*default_);
-    }
-
-    return nullopt;
+    auto lock = std::lock_guard(mutex_);
+    return default_;
   }
 };
 
-- 
2.43.0


From 6aaaf3808ebe5f086bc42f78cc92d6fc47cb63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 45/50] fix: decompress middleware ignores all but the first
 Content-Encoding line

---
 include/fitoria/web/middleware/decompress.hpp | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/fitoria/web/middleware/decompress.hpp b/include/fitoria/web/middleware/decompress.hpp
index b38e738..93769aa 100644
--- a/include/fitoria/web/middleware/decompress.hpp
+++ b/include/fitoria/web/middleware/decompress.hpp
@@ -34,8 +34,18 @@ class decompress_middleware {
 public:
   auto operator()(Request req) const -> Response
   {
-    if (auto str = req.headers().get(http::field::content_encoding); str) {
-      auto encs = split_of(*str, ",");
+    if (auto [first, last]
+        = req.headers().equal_range(http::field::content_encoding);
+        first != last) {
+      // all the field lines together are one list
+      auto list = std::string(first->value());
+      for (++first; first != last; ++first) {
+        list += ',';
+        list += std::string_view(first->value());
+      }
+
+      auto str = std::string_view(list);
+      auto encs = split_of(str, ",");
       std::reverse(encs.begin(), encs.end());
 
       auto body = std::move(req.body());
@@ -57,15 +67,15 @@ public:
               .set_header(http::field::content_type, mime::text_plain())
               .set_body(R"(unsupported "Content-Encoding".)");
         }
-        *str = remove_last_encoding(*str);
+        str = remove_last_encoding(str);
       }
 
       auto builder = req.builder();
 
-      if (str->empty()) {
+      if (str.empty()) {
         builder.headers().erase(http::field::content_encoding);
       } else {
-        builder.set_header(http::field::content_encoding, *str);
+        builder.set_header(http::field::content_encoding, str);
       }
 
       req = builder.set_body(std::move(body));
-- 
2.43.0


From 0a0d7df6177c219b89c666197e261a9ae5a27aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 46/50] fix: operations and timers of one connection race on a
 multi-threaded executor

---
 include/fitoria/web/http_server.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index c5d97e3..fdc7176 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -307,13 +307,26 @@ public:
   }
 
 private:
+  // operations and timers of one connection must not run concurrently
+  template <typename Executor>
+  static auto make_session_executor(const Executor& ex) -> Executor
+  {
+    if constexpr (std::is_constructible_v<Executor, net::strand<Executor>>) {
+      return Executor(net::strand<Executor>(ex));
+    } else {
+      return ex;
+    }
+  }
+
   template <typename Protocol>
   auto do_listen(socket_acceptor<Protocol> acceptor) const -> awaitable<void>
   {
     for (;;) {
-      if (auto socket = co_await acceptor.async_accept(use_awaitable); socket) {
+      const auto ex = make_session_executor(ex_);
+      if (auto socket = co_await acceptor.async_accept(ex, use_awaitable);
+          socket) {
         net::co_spawn(
-            ex_,
+            ex,
             do_session(shared_basic_stream<Protocol>(std::move(*socket))),
             exception_handler_);
       }
@@ -326,8 +339,10 @@ private:
                  net::ssl::context& ssl_ctx) const -> awaitable<void>
   {
     for (;;) {
-      if (auto socket = co_await acceptor.async_accept(use_awaitable); socket) {
-        net::co_spawn(ex_,
+      const auto ex = make_session_executor(ex_);
+      if (auto socket = co_await acceptor.async_accept(ex, use_awaitable);
+          socket) {
+        net::co_spawn(ex,
                       do_session(shared_ssl_stream<Protocol>(std::move(*socket),
                                                              ssl_ctx)),
                       exception_handler_);
-- 
2.43.0


From 4de8d09c73d64f2a8153bf83e635b5577c88cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 47/50] fix: names of static files break or inject response
 headers

---
 include/fitoria/web/static_file.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 51b07aa..a58eb15 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -365,8 +365,18 @@ private:
       return fmt::format("inline");
     }
 
-    auto p = std::filesystem::path(path);
-    return fmt::format(R"(attachment; filename="{}")", p.filename().string());
+    // https://datatracker.ietf.org/doc/html/rfc9110#section-5.6.4
+    auto filename = std::string();
+    for (const auto c : std::filesystem::path(path).filename().string()) {
+      if (c == '"' || c == '\\') {
+        filename += '\\';
+        filename += c;
+      } else {
+        const auto u = static_cast<unsigned char>(c);
+        filename += u < 0x20 || u == 0x7f ? '_' : c;
+      }
+    }
+    return fmt::format(R"(attachment; filename="{}")", filename);
   }
 
   static auto check_if_not_modified(
-- 
2.43.0


From 3a8d0273f627a9242dbdf74d9da9170988194c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 48/50] fix: bind_local throws when the path is too long

---
 include/fitoria/web/detail/make_endpoint.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fitoria/web/detail/make_endpoint.hpp b/include/fitoria/web/detail/make_endpoint.hpp
index 58f6236..1ab19ac 100644
--- a/include/fitoria/web/detail/make_endpoint.hpp
+++ b/include/fitoria/web/detail/make_endpoint.hpp
@@ -42,6 +42,11 @@ inline auto make_endpoint(std::string_view ip_addr, std::uint16_t port)
 inline auto make_endpoint(std::string_view file_path)
     -> expected<net::local::stream_protocol::endpoint, std::error_code>
 {
+  // the endpoint throws when the path does not fit with its terminator
+  if (file_path.size() >= sizeof(net::detail::sockaddr_un_type::sun_path)) {
+    return unexpected { make_error_code(net::error::name_too_long) };
+  }
+
   return net::local::stream_protocol::endpoint(file_path);
 }
 
-- 
2.43.0


From c073417a6202b54f6e83f0a05bed835e8a545686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 49/50] fix: closing a connection with the request body unread
 discards the response

---
 include/fitoria/web/http_server.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index fdc7176..82f13d9 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -530,11 +530,8 @@ private:
         co_return unexpected { exp.error() };
       }
 
-      if (!keep_alive) {
-        break;
-      }
-
-      // what the handler left of the request body is not the next request
+      // what the handler left of the request body is not the next request, and
+      // closing the connection with it unread discards the response
       auto rest
           = async_message_parser_stream(buffer, stream, parser, body_error);
       for (auto data = co_await rest.async_read_some(); data;
@@ -543,6 +540,10 @@ private:
           co_return unexpected { data->error() };
         }
       }
+
+      if (!keep_alive) {
+        break;
+      }
     }
 
     co_return expected<void, std::error_code>();
-- 
2.43.0


From d832661523ec631d3640cd230d025bbdaaec56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 50/50] fix: chunk extensions and trailers are collected
 without limit

---
 include/fitoria/web/http_server.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 82f13d9..be69542 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -415,7 +415,11 @@ private:
     using boost::beast::http::response;
     using boost::beast::websocket::is_upgrade;
 
-    auto buffer = std::make_shared<flat_buffer>();
+    // what the parser can't consume yet is bounded by the header limit: chunk
+    // extensions and trailers may not be collected without limit either
+    auto buffer = std::make_shared<flat_buffer>(
+        request_header_limit_ ? std::size_t(*request_header_limit_) + 65536
+                              : flat_buffer().max_size());
 
     for (;;) {
       auto parser = std::make_shared<request_parser<buffer_body>>();
-- 
2.43.0

