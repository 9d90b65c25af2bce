From 943a53881d1b83f898cf18841e736ae08b8d7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 01/17] fix: size the dispatcher output buffers after the
 return types

The output buffers were sized after the parameters of the callbacks, so that a
response larger than every parameter list was written past their end.
---
 include/upd/buffered_dispatcher.hpp          |  5 +++--
 include/upd/detail/type_traits/signature.hpp | 11 +++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 081f0b0..7c709f0 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -20,6 +20,7 @@
 #include "detail/type_traits/typelist.hpp"
 
 // IWYU pragma: no_forward_declare upd::detail::map_parameters_size
+// IWYU pragma: no_forward_declare upd::detail::map_return_type_size
 
 namespace upd {
 namespace detail {
@@ -33,7 +34,7 @@ using needed_input_buffer_size =
 
 //! \brief How many bytes that would be needed to represent any action response of `Keyring`
 template<typename Keyring>
-using needed_output_buffer_size = detail::max<detail::map_parameters_size<typename Keyring::signatures_t::type>>;
+using needed_output_buffer_size = detail::max<detail::map_return_type_size<typename Keyring::signatures_t::type>>;
 
 } // namespace detail
 
@@ -377,7 +378,7 @@ public:
   double_buffered_dispatcher() = default;
 
 private:
-  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size];
+  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size > 0 ? output_buffer_size : 1];
 };
 
 #if __cplusplus >= 201703L
diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 661b5f0..eebe840 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -127,6 +127,17 @@ struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
+//! \name
+//! \brief Map `return_type_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_return_type_size;
+template<typename... Fs>
+struct map_return_type_size<tlist_t<Fs...>> : tlist_t<return_type_size<Fs>...> {};
+
+//! @}
+
 UPD_DETAIL_MAKE_DETECTOR(
     has_signature_impl,
     UPD_PACK(typename F, typename R, typename... Args),
-- 
2.43.0


From b5efb050cfab692ec7f7acecff1be9b1158c5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 02/17] fix: count serialized bytes, not sizeof, in payload and
 buffer sizes

The payload length of the keys, the input and output sizes of the actions
without storage and the sizes of the dispatcher buffers were computed from
sizeof, which differs from the number of serialized bytes for types with an
user-provided extension.
---
 include/upd/detail/type_traits/signature.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index eebe840..8509167 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -6,6 +6,7 @@
 #include <type_traits>
 
 #include "detector.hpp"
+#include "remove_cv_ref.hpp"
 #include "typelist.hpp"
 
 #include "../../upd.hpp"
@@ -13,6 +14,9 @@
 namespace upd {
 namespace detail {
 
+template<typename>
+struct serialization_size; // IWYU pragma: keep
+
 //! \name
 //! \brief Allows to hold a function signature
 //!
@@ -98,13 +102,15 @@ template<typename F>
 struct is_invocable : decltype(is_invocable_impl<F>(0)) {};
 
 //! \name
-//! \brief Sums the sizes of the parameters of `F`
+//! \brief Sums the sizes of the parameters of `F` once serialized
 //! @{
 
 template<typename F>
 struct parameters_size : parameters_size<signature_t<F>> {};
 template<typename R, typename... Args>
-struct parameters_size<R(Args...)> : sum<detail::tlist_t<std::integral_constant<std::size_t, sizeof(Args)>...>> {};
+struct parameters_size<R(Args...)>
+    : sum<detail::tlist_t<
+          std::integral_constant<std::size_t, detail::serialization_size<detail::remove_cv_ref_t<Args>>::value>...>> {};
 
 //! @}
 
@@ -119,11 +125,12 @@ struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
 
 //! @}
 
-//! \brief Gets the size of the return type of `F`
+//! \brief Gets the size of the return type of `F` once serialized
 template<typename F>
 struct return_type_size : return_type_size<detail::signature_t<F>> {};
 template<typename R, typename... Args>
-struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof(R)> {};
+struct return_type_size<R(Args...)>
+    : std::integral_constant<std::size_t, detail::serialization_size<detail::remove_cv_ref_t<R>>::value> {};
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
-- 
2.43.0


From c35fbecba31c16f648cb61bfc3b5c62aebed2902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 03/17] fix: transfer only the serialized bytes through
 non-pointer iterators

Views bound through an iterator which is not a plain pointer copied sizeof(T)
bytes for each element, which overwrote the bytes following an element whose
type has an user-provided extension.
---
 include/upd/detail/serialization.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 37130b0..25d5305 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -21,6 +21,9 @@ class tuple_view; // IWYU pragma: keep
 
 namespace detail {
 
+template<typename>
+struct serialization_size; // IWYU pragma: keep
+
 //! \brief Make a tuple view suitable for functors of the provided signature to invoke on
 template<endianess Endianess, signed_mode Signed_Mode, typename It, typename... Args, typename R>
 tuple_view<It, Endianess, Signed_Mode, Args...> make_view_for(const It &it, signature<R(Args...)>) {
@@ -86,7 +89,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
   for (byte_t &byte : buf)
     byte = *it++;
   return read_as<T, Endianess, Signed_Mode>(buf);
@@ -149,7 +152,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
 
   write_as<Endianess, Signed_Mode>(value, buf);
   for (const byte_t &byte : buf)
-- 
2.43.0


From 7e63389374e7a861439aedb2206ac3f7b771a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 04/17] fix: keep buffered dispatchers usable when a callback
 throws

The input state was reset after the callback had been invoked only. Once a
callback had thrown, the following bytes were written past the end of the
input buffer and no request could be resolved anymore.
---
 include/upd/buffered_dispatcher.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 7c709f0..5111590 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -262,14 +262,15 @@ private:
     m_obuf_bottom = 0;
     m_obuf_next = 0;
 
+    // The input state is reset beforehand so that the dispatcher is ready for another request even if the callback throws
+    m_is_index_loaded = false;
+    m_load_count = sizeof(index_t);
+    m_ibuf_next = 0;
+
     auto *ibuf_ptr = derived().ibuf_begin();
     auto index = get_index([&]() { return *ibuf_ptr++; });
     m_dispatcher[index]([&]() { return *ibuf_ptr++; },
                         [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
-
-    m_is_index_loaded = false;
-    m_load_count = sizeof(index_t);
-    m_ibuf_next = 0;
   }
 
   //! \copydoc dispatcher::get_index
-- 
2.43.0


From 1a2d47324b2d5a32d7609df10d27136d3fbcca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 05/17] fix: store a copy of the callbacks given to actions as
 lvalues

An action created from an lvalue kept a reference to it instead of the
documented copy, hence it dangled as soon as the lvalue went out of scope.
---
 include/upd/action.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 611a33b..71e0395 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -16,6 +16,7 @@
 #include "detail/static_error.hpp"
 #include "detail/type_traits/flatten_tuple.hpp"
 #include "detail/type_traits/input_tuple.hpp"
+#include "detail/type_traits/remove_cv_ref.hpp"
 #include "detail/type_traits/require.hpp"
 #include "detail/type_traits/signature.hpp"
 
@@ -76,7 +77,8 @@ template<typename F, endianess Endianess, signed_mode Signed_Mode>
 struct action_model_impl {
   using tuple_t = input_tuple<Endianess, Signed_Mode, F>;
 
-  explicit action_model_impl(F &&ftor) : ftor{UPD_FWD(ftor)} {}
+  template<typename T>
+  explicit action_model_impl(T &&ftor) : ftor{UPD_FWD(ftor)} {}
 
   F ftor;
 };
@@ -105,7 +107,8 @@ class action_model : public action_concept {
   using tuple_t = typename impl_t::tuple_t;
 
 public:
-  explicit action_model(F &&ftor) : m_impl{UPD_FWD(ftor)} {
+  template<typename T>
+  explicit action_model(T &&ftor) : m_impl{UPD_FWD(ftor)} {
     action_model::input_size = tuple_t::size;
     action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
   }
@@ -157,7 +160,7 @@ public:
   //! \param ftor Callback to be wrapped
   template<endianess Endianess, signed_mode Signed_Mode, typename F, UPD_REQUIREMENT(invocable, F)>
   explicit action(F &&ftor, endianess_h<Endianess>, signed_mode_h<Signed_Mode>)
-      : m_concept_uptr{new detail::action_model<F, Endianess, Signed_Mode>{UPD_FWD(ftor)}} {}
+      : m_concept_uptr{new detail::action_model<detail::decay_t<F>, Endianess, Signed_Mode>{UPD_FWD(ftor)}} {}
 
   UPD_SFINAE_FAILURE_CTOR(action, UPD_ERROR_NOT_INVOCABLE(ftor))
 
-- 
2.43.0


From 576aa3c9e07a180c69278d2f92a52f5210d64f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 06/17] fix: avoid signed overflows with the smallest value in
 two's complement

The platform-agnostic conversions negated the smallest value of int and wider
types, which overflows.
---
 include/upd/detail/signed_representation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index d34ad05..ca274f7 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -24,7 +24,7 @@ T from_signed_mode_impl(unsigned long long value) {
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 T from_signed_mode_impl(unsigned long long value) {
   constexpr auto sign_mask = 0b10000000ull << 8 * (sizeof(T) - 1);
-  return value & sign_mask ? T(-T(~value + 1)) : T(value);
+  return value & sign_mask ? T(-T(~value) - 1) : T(value);
 }
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 T from_signed_mode_impl(unsigned long long value) {
@@ -56,7 +56,7 @@ unsigned long long to_signed_mode_impl(T value) {
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-value - 1));
+  return value >= 0 ? static_cast<unsigned long long>(value) : ~static_cast<unsigned long long>(-(value + 1));
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-- 
2.43.0


From 4261f3402540cfd9081761c18bb253641c1dd1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 07/17] fix: decode any nonzero byte as true on platforms with
 a known endianess

Booleans were copied from memory when the endianess of the platform was
provided, thus bytes other than 0 and 1 yielded an invalid bool.
---
 include/upd/detail/endianess.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/endianess.hpp b/include/upd/detail/endianess.hpp
index 14561ef..ea3e0c5 100644
--- a/include/upd/detail/endianess.hpp
+++ b/include/upd/detail/endianess.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <cstring>
+#include <type_traits>
 
 #include "../format.hpp"
 #include "../type.hpp"
@@ -37,14 +38,20 @@ T from_endianess_impl(const byte_t *raw_data, std::size_t n) {
 }
 
 //! \brief Interpret a sequence of byte as an integer according to the provided endianess
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess == Endianess)>
+//!
+//! `bool` values are never copied from memory, because only a few of the byte patterns are valid for this type.
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess == Endianess && !std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   auto retval = T(0);
   memcpy(&retval, raw_data, n);
 
   return retval;
 }
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess != Endianess)>
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess != Endianess || std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   return from_endianess_impl<T, Endianess>(raw_data, n);
 }
-- 
2.43.0


From 5f5a51795b19c62f51787b6085152f98eaa1e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 08/17] fix: do not send uninitialized bytes after a reply

The bytes following a response shorter than the buffer it is replied through
were left uninitialized, which disclosed the content of the stack.
---
 include/upd/buffered_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 5111590..98466ee 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -240,7 +240,7 @@ public:
 
     using buf_t = typename Key::tuple_t::template arg_t<0>;
 
-    buf_t buf;
+    buf_t buf{};
     write_to(std::begin(buf));
     k(buf).write_to(UPD_FWD(output));
 
-- 
2.43.0


From 9b0238a4e8acca9e1807520bb25270847eaa630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 09/17] fix: reject payloads which are too short when decoding
 from Python

Decoding less bytes than expected dereferenced an exhausted iterator, which
crashed the interpreter.
---
 include/upd/python.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index 1c5beb9..0dc8b1a 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -85,7 +85,8 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
            [](key_t k, pybind11::object &pybytes) {
              auto it = pybytes.begin();
              return k.read_from([&]() {
-               ++it;
+               if (++it == pybind11::iterator::sentinel())
+                 throw std::invalid_argument{"The payload is too short for the expected value"};
                return it->cast<byte_t>();
              });
            })
-- 
2.43.0


From c9e4c27bfb601fa0d3035943d43f75c99c132134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 10/17] fix: raise NotImplementedError when a client does not
 implement new_request

NotImplemented is not callable, so a TypeError unrelated to the actual problem
was raised instead.
---
 py/unpadded/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/unpadded/client.py b/py/unpadded/client.py
index fdc6a9f..b4e7990 100644
--- a/py/unpadded/client.py
+++ b/py/unpadded/client.py
@@ -1,6 +1,6 @@
 class Client:
     def new_request(self, payload):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     async def call(self, key, *args):
         response = await self.new_request(key.encode(*args))
-- 
2.43.0


From 23fffcce1cb4d960678f9f55cf36376aeff5d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 11/17] fix: compile actions without storage for callbacks
 which return a type from std

---
 include/upd/action.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 71e0395..a86d049 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -138,7 +138,8 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
   input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
+  auto return_tuple =
+      upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
   for (auto byte : return_tuple)
     dest(byte);
 }
-- 
2.43.0


From 855a4c418fe871bb5249d2f3badb4612e258bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:54 +0000
Subject: [PATCH 12/17] fix: zero the bytes that user-defined serializations
 leave unset

---
 include/upd/tuple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/upd/tuple.hpp b/include/upd/tuple.hpp
index 18ed54f..741fe38 100644
--- a/include/upd/tuple.hpp
+++ b/include/upd/tuple.hpp
@@ -395,7 +395,8 @@ public:
   }
 
 private:
-  upd::byte_t m_storage[base_t::size];
+  //! Zero-initialized as user-provided serialization functions may leave bytes unset
+  upd::byte_t m_storage[base_t::size]{};
 };
 
 template<endianess Endianess, signed_mode Signed_Mode>
-- 
2.43.0


From c1b275b12f61dc91f1d317df5364520df63884ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 13/17] fix: reach derived dispatchers, keys and messages
 whatever their layout

---
 include/upd/buffered_dispatcher.hpp         | 4 ++--
 include/upd/detail/io/immediate_process.hpp | 4 ++--
 include/upd/detail/io/immediate_reader.hpp  | 4 ++--
 include/upd/detail/io/immediate_writer.hpp  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 98466ee..5b32a2d 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -70,8 +70,8 @@ class buffered_dispatcher : public detail::immediate_reader<buffered_dispatcher<
                             public detail::immediate_process<buffered_dispatcher<D, Dispatcher>, packet_status> {
   using this_t = buffered_dispatcher<D, Dispatcher>;
 
-  D &derived() { return reinterpret_cast<D &>(*this); }
-  const D &derived() const { return reinterpret_cast<const D &>(*this); }
+  D &derived() { return static_cast<D &>(*this); }
+  const D &derived() const { return static_cast<const D &>(*this); }
 
 public:
   //! \copydoc dispatcher::index_t
diff --git a/include/upd/detail/io/immediate_process.hpp b/include/upd/detail/io/immediate_process.hpp
index 6e25494..cac2a62 100644
--- a/include/upd/detail/io/immediate_process.hpp
+++ b/include/upd/detail/io/immediate_process.hpp
@@ -18,8 +18,8 @@ namespace detail {
 //!   Derived classes must be invocable on an input functor an output functor.
 template<typename D, typename R>
 class immediate_process {
-  D &derived() { return reinterpret_cast<D &>(*this); }
-  const D &derived() const { return reinterpret_cast<const D &>(*this); }
+  D &derived() { return static_cast<D &>(*this); }
+  const D &derived() const { return static_cast<const D &>(*this); }
 
 public:
   template<typename Input,
diff --git a/include/upd/detail/io/immediate_reader.hpp b/include/upd/detail/io/immediate_reader.hpp
index d1365f8..c6cba06 100644
--- a/include/upd/detail/io/immediate_reader.hpp
+++ b/include/upd/detail/io/immediate_reader.hpp
@@ -14,8 +14,8 @@ namespace detail {
 //! on an input functor.
 template<typename D, typename R>
 class immediate_reader {
-  D &derived() { return reinterpret_cast<D &>(*this); }
-  const D &derived() const { return reinterpret_cast<const D &>(*this); }
+  D &derived() { return static_cast<D &>(*this); }
+  const D &derived() const { return static_cast<const D &>(*this); }
 
 public:
   template<typename Src_F, UPD_REQUIREMENT(input_invocable, Src_F)>
diff --git a/include/upd/detail/io/immediate_writer.hpp b/include/upd/detail/io/immediate_writer.hpp
index 2bdcd15..3c43d35 100644
--- a/include/upd/detail/io/immediate_writer.hpp
+++ b/include/upd/detail/io/immediate_writer.hpp
@@ -15,8 +15,8 @@ namespace detail {
 //!   Derived classes must define a `write_to` invocable on an input functor.
 template<typename D>
 class immediate_writer {
-  D &derived() { return reinterpret_cast<D &>(*this); }
-  const D &derived() const { return reinterpret_cast<const D &>(*this); }
+  D &derived() { return static_cast<D &>(*this); }
+  const D &derived() const { return static_cast<const D &>(*this); }
 
 public:
   template<typename Dest_F, UPD_REQUIREMENT(output_invocable, Dest_F)>
-- 
2.43.0


From 99012183d89950accc107d86a403b5c92476c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:43 +0000
Subject: [PATCH 14/17] fix: accept noexcept callbacks in C++17

---
 include/upd/detail/type_traits/signature.hpp | 28 ++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 8509167..f06bbfb 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -73,6 +73,34 @@ template<typename R, typename C, typename... Args>
 struct examine_invocable_impl<R (C::*)(Args...) volatile &&> : signature<R(Args...)> {};
 template<typename R, typename C, typename... Args>
 struct examine_invocable_impl<R (C::*)(Args...) const volatile &&> : signature<R(Args...)> {};
+#if defined(__cpp_noexcept_function_type)
+template<typename R, typename... Args>
+struct examine_invocable_impl<R (*)(Args...) noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) volatile noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const volatile noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) & noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const & noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) volatile & noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const volatile & noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) && noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const && noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) volatile && noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const volatile && noexcept> : signature<R(Args...)> {};
+#endif
 template<>
 struct examine_invocable_impl<no_signature> : no_signature {};
 
-- 
2.43.0


From da3e630fa7bcd58312ad99384a566633fc5268e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:30 +0000
Subject: [PATCH 15/17] fix: let actions and dispatchers take the sources and
 destinations which keys take

---
 include/upd/action.hpp                    |  6 ++++--
 include/upd/detail/function_reference.hpp | 12 ++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index a86d049..e98e252 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -179,7 +179,8 @@ public:
   template<typename Src, typename Dest, UPD_REQUIREMENT(input_invocable, Src), UPD_REQUIREMENT(output_invocable, Dest)>
   void operator()(Src &&src, Dest &&dest) const {
     if (m_concept_uptr)
-      (*m_concept_uptr)(detail::make_function_reference(src), detail::make_function_reference(dest));
+      (*m_concept_uptr)(detail::make_function_reference_as<byte_t()>(src),
+                        detail::make_function_reference_as<void(byte_t)>(dest));
   }
 
   UPD_SFINAE_FAILURE_MEMBER(operator(), UPD_ERROR_NOT_INPUT(src) " OR " UPD_ERROR_NOT_OUTPUT(dest))
@@ -223,7 +224,8 @@ public:
   //! \copydoc action::operator()()
   template<typename Src, typename Dest, UPD_REQUIREMENT(input_invocable, Src), UPD_REQUIREMENT(output_invocable, Dest)>
   void operator()(Src &&src, Dest &&dest) const {
-    m_wrapper(detail::make_function_reference(src), detail::make_function_reference(dest));
+    m_wrapper(detail::make_function_reference_as<byte_t()>(src),
+              detail::make_function_reference_as<void(byte_t)>(dest));
   }
 
   //! \copydoc action::input_size
diff --git a/include/upd/detail/function_reference.hpp b/include/upd/detail/function_reference.hpp
index 08d52fa..0ec9027 100644
--- a/include/upd/detail/function_reference.hpp
+++ b/include/upd/detail/function_reference.hpp
@@ -67,5 +67,17 @@ function_reference<F> make_function_reference(F &ftor) {
   return function_reference<F>(ftor);
 }
 
+//! \brief Wrap a functor by reference so that it is called with the given signature
+//! \details
+//!   Contrary to 'make_function_reference', the functor may have any signature compatible with the provided one (or
+//!   even have several, as overloaded or generic functors do).
+//! \tparam Signature signature of the wrapper
+//! \param ftor wrapped functor
+//! \return an object deriving from 'abstract_function<Signature>' and wrapping the provided functor
+template<typename Signature, typename F>
+function_reference_impl<F, Signature> make_function_reference_as(F &ftor) {
+  return function_reference_impl<F, Signature>(ftor);
+}
+
 } // namespace detail
 } // namespace upd
-- 
2.43.0


From 31daf9c46b6f5514fbf69199cdc5d5c48bc2382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:50 +0000
Subject: [PATCH 16/17] fix: refuse floating point numbers, which are not
 serializable

---
 include/upd/detail/type_traits/require.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/upd/detail/type_traits/require.hpp b/include/upd/detail/type_traits/require.hpp
index c1dcdd0..00afd35 100644
--- a/include/upd/detail/type_traits/require.hpp
+++ b/include/upd/detail/type_traits/require.hpp
@@ -100,7 +100,7 @@ using require_unsigned_integer = require<std::is_unsigned<T>::value, U>;
 
 //! \brief Require the provided type to be a signed integer type
 template<typename T, typename U = int>
-using require_signed_integer = require<std::is_signed<T>::value, U>;
+using require_signed_integer = require<std::is_integral<T>::value && std::is_signed<T>::value, U>;
 
 //! \brief Require the provided type to be an bounded array type
 template<typename T, typename U = int>
-- 
2.43.0


From 1901c0979c090c202b8c62cb4c487007a06d0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:55 +0000
Subject: [PATCH 17/17] fix: refuse replies to actions which do not take a byte
 buffer

---
 include/upd/buffered_dispatcher.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 5b32a2d..7cd90b5 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -241,6 +241,7 @@ public:
     using buf_t = typename Key::tuple_t::template arg_t<0>;
 
     buf_t buf{};
+    static_assert(sizeof *std::begin(buf) == sizeof(byte_t), "The action of the key must accept a byte buffer.");
     write_to(std::begin(buf));
     k(buf).write_to(UPD_FWD(output));
 
-- 
2.43.0

