From 1910d8beb0bb2c4eaa5a561f93b67ddf8ae41642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 01/50] fix: print the names of the type flags that are set

flag_name() used the bit value as an index and read far outside of the
name table; CopyAssignable had no name at all.
---
 include/rtti/metatype.h | 2 +-
 src/metatype.cpp        | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index e4ff728..5dbb01a 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -69,7 +69,7 @@ enum class TypeFlags: std::uint32_t {
 };
 
 BITMASK_ENUM(TypeFlags)
-std::ostream& operator<<(std::ostream &stream, TypeFlags value);
+RTTI_API std::ostream& operator<<(std::ostream &stream, TypeFlags value);
 
 class RTTI_API MetaType final {
 public:
diff --git a/src/metatype.cpp b/src/metatype.cpp
index 5c44784..21fd61c 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -477,6 +477,7 @@ static char const *flag_names[] = {"None",
                                    "Polymorphic",
                                    "DefaultConstructible",
                                    "CopyConstructible",
+                                   "CopyAssignable",
                                    "MoveConstructible",
                                    "MoveAssignable",
                                    "Destructible",
@@ -485,7 +486,11 @@ static char const *flag_names[] = {"None",
 
 inline static std::string_view flag_name(TypeFlags value)
 {
-    return flag_names[static_cast<std::underlying_type_t<TypeFlags>>(value)];
+    // names are ordered by bit number, "None" goes first
+    auto index = std::size_t{0};
+    for (auto bits = static_cast<std::underlying_type_t<TypeFlags>>(value); bits; bits >>= 1)
+        ++index;
+    return flag_names[index];
 }
 
 inline static constexpr bool check_flag(TypeFlags value, TypeFlags bit)
@@ -543,6 +548,8 @@ std::ostream& operator<<(std::ostream &stream, TypeFlags value)
         it = flag_name(TypeFlags::DefaultConstructible);
     if (check_flag(value, TypeFlags::CopyConstructible))
         it = flag_name(TypeFlags::CopyConstructible);
+    if (check_flag(value, TypeFlags::CopyAssignable))
+        it = flag_name(TypeFlags::CopyAssignable);
     if (check_flag(value, TypeFlags::MoveConstructible))
         it = flag_name(TypeFlags::MoveConstructible);
     if (check_flag(value, TypeFlags::MoveAssignable))
-- 
2.43.0


From 784fd13236b2c527f3d77b5a2c00ba8e82babb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 02/50] fix: construct array elements instead of assigning to
 raw memory

Copying or moving an array through its function table assigned elements
to storage where no object was alive yet, and an element constructor
that threw left the elements before it undestroyed.
---
 include/rtti/metatype.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 5dbb01a..c4c9e63 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,6 +10,8 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <memory>
+
 namespace rtti {
 
 namespace internal {
@@ -335,10 +337,7 @@ struct type_function_table_impl<T[N]>
                 if (where)
                 {
                     auto *begin = static_cast<Base*>(where);
-                    auto *end = static_cast<Base*>(where) + Length;
-
-                    for (; begin != end; ++begin)
-                        new (begin) Base();
+                    std::uninitialized_value_construct(begin, begin + Length);
                 }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't DefaultConstructible");
@@ -353,7 +352,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base const*>(source);
-                std::copy(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't CopyConstructible");
@@ -368,7 +367,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base*>(source);
-                std::move(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_move(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't MoveConstructible");
-- 
2.43.0


From 75e3171677276174be723a663d2358551272c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 03/50] fix: decide equality of arrays by their elements

Whether two arrays can be compared, and without throwing, was decided
for the pointers they decay to: arrays of elements without operator== did
not compile and a throwing comparison of elements ended the program.
---
 include/rtti/detail/variant_impl.h | 5 +++--
 include/rtti/metatype.h            | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 2ba1779..5214195 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -169,7 +169,7 @@ struct variant_function_table_impl<T, true, true>
     { /* do nothing */ }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Element, Element>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
@@ -182,6 +182,7 @@ private:
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
 
     using Decay = std::conditional_t<std::is_array_v<U>, remove_all_cv_t<U>, full_decay_t<U>>;
+    using Element = std::remove_all_extents_t<Decay>;
 };
 
 template<typename T>
@@ -315,7 +316,7 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index c4c9e63..3b53d33 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -395,10 +395,10 @@ struct type_function_table_impl<T[N]>
     }
 
     static bool compare_eq(void const *lhs, void const *rhs)
-        noexcept(has_nt_eq_v<T, T>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         using namespace std::literals;
-        if constexpr(has_eq_v<T, T>)
+        if constexpr(has_eq_v<Base, Base>)
         {
             if (lhs == rhs)
                 return true;
-- 
2.43.0


From b77fb63b85e4cfa27ac1688928727527970d77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 04/50] fix: free the storage of a variant when its value
 cannot be constructed

The allocation was lost when the constructor threw or the type was not
copyable, and a failed allocation ended the program whenever the value
itself could be constructed without throwing.
---
 include/rtti/detail/variant_impl.h | 46 ++++++++++++++++++------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 5214195..4a8e864 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -185,6 +185,22 @@ private:
     using Element = std::remove_all_extents_t<Decay>;
 };
 
+template<typename T, typename F>
+inline void* allocate_and_construct(F &&construct)
+{
+    auto *result = type_manager_t<T>::allocate();
+    try
+    {
+        construct(result);
+    }
+    catch (...)
+    {
+        type_manager_t<T>::deallocate(result);
+        throw;
+    }
+    return result;
+}
+
 template<typename T>
 struct variant_function_table_impl<T, false, false>
 {
@@ -212,24 +228,21 @@ struct variant_function_table_impl<T, false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = allocate_and_construct<Decay>([value](void *where)
+        { type_manager_t<Decay>::copy_construct(value, where); });
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = allocate_and_construct<Decay>([value](void *where)
+        { type_manager_t<Decay>::move_or_copy(value, where); });
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = allocate_and_construct<Decay>([&src](void *where)
+        { type_manager_t<Decay>::copy_construct(src.ptr, where); });
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
@@ -284,24 +297,21 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = allocate_and_construct<Decay>([value](void *where)
+        { type_manager_t<Decay>::copy_construct(value, where); });
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = allocate_and_construct<Decay>([value](void *where)
+        { type_manager_t<Decay>::move_or_copy(value, where); });
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = allocate_and_construct<Decay>([&src](void *where)
+        { type_manager_t<Decay>::copy_construct(src.ptr, where); });
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
-- 
2.43.0


From 42ba38fe3801fcb7c3092612e364efa6483ab772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 05/50] fix: free the storage when MetaType::construct fails

---
 src/metatype.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 21fd61c..8aba7a3 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -292,13 +292,20 @@ bool MetaType::compare_eq(void const *lhs, void const *rhs) const
 void* MetaType::construct(void *copy, bool movable) const
 {
     auto result = allocate();
-    if (!copy)
-        default_construct(result);
-    else if (!movable)
-        copy_construct(copy, result);
-    else
-        move_or_copy(copy, result);
-
+    try
+    {
+        if (!copy)
+            default_construct(result);
+        else if (!movable)
+            copy_construct(copy, result);
+        else
+            move_or_copy(copy, result);
+    }
+    catch (...)
+    {
+        deallocate(result);
+        throw;
+    }
     return result;
 }
 
-- 
2.43.0


From a7b034bd79abe2e0e8d3defb1a805f40cebc45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 06/50] fix: respect the alignment of contained types

Small types aligned to more than a pointer were kept in the storage of
the variant, and over-aligned types on the heap in memory from the plain
operator new.
---
 include/rtti/detail/variant_impl.h |  2 +-
 include/rtti/metatype.h            | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 4a8e864..96b3f0a 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,7 +5,7 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE>
+template<typename T, bool Small = (sizeof(T) <= STORAGE_SIZE) && (alignof(T) <= STORAGE_ALIGN)>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 3b53d33..f76186e 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -11,6 +11,7 @@
 #include <rtti/tagged_id.h>
 
 #include <memory>
+#include <new>
 
 namespace rtti {
 
@@ -227,12 +228,19 @@ struct type_function_table_impl
 {
     static void* allocate()
     {
-        return ::operator new(sizeof(T));
+        if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            return ::operator new(sizeof(T), std::align_val_t{alignof(T)});
+        else
+            return ::operator new(sizeof(T));
     }
 
     static void deallocate(void *ptr)
     {
-        if (ptr)
+        if (!ptr)
+            return;
+        if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            ::operator delete(ptr, std::align_val_t{alignof(T)});
+        else
             ::operator delete(ptr);
     }
 
@@ -318,12 +326,19 @@ struct type_function_table_impl<T[N]>
 
     static void* allocate()
     {
-        return ::operator new(Length*sizeof(Base));
+        if constexpr(alignof(Base) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            return ::operator new(Length*sizeof(Base), std::align_val_t{alignof(Base)});
+        else
+            return ::operator new(Length*sizeof(Base));
     }
 
     static void deallocate(void *ptr)
     {
-        if (ptr)
+        if (!ptr)
+            return;
+        if constexpr(alignof(Base) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            ::operator delete(ptr, std::align_val_t{alignof(Base)});
+        else
             ::operator delete(ptr);
     }
 
-- 
2.43.0


From f56ac8e137993c8716a349a45ab44332a7c811e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 07/50] fix: keep types that may throw when moved on the heap

Moving and swapping variants is noexcept, but relocated such values with
their own throwing move (or copy) constructor, ending the program.
---
 include/rtti/detail/variant_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 96b3f0a..ad5149f 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,7 +5,9 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = (sizeof(T) <= STORAGE_SIZE) && (alignof(T) <= STORAGE_ALIGN)>
+// Values are moved between storages by noexcept operations
+template<typename T, bool Small = (sizeof(T) <= STORAGE_SIZE) && (alignof(T) <= STORAGE_ALIGN)
+                                  && std::is_nothrow_move_constructible_v<T>>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
-- 
2.43.0


From 13459f13327a988749d1a1d13e75a406c0483fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 08/50] fix: keep types that can only be copied on the heap

Relocating such a value inside of a variant copied it and never
destroyed the original, with whatever that owns.
---
 include/rtti/detail/variant_impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index ad5149f..3b07e9a 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,9 +5,12 @@ namespace rtti {
 
 namespace internal {
 
-// Values are moved between storages by noexcept operations
+// Values are moved between storages by noexcept operations, which do not destroy their source:
+// copies left behind there would be lost
 template<typename T, bool Small = (sizeof(T) <= STORAGE_SIZE) && (alignof(T) <= STORAGE_ALIGN)
-                                  && std::is_nothrow_move_constructible_v<T>>
+                                  && std::is_nothrow_move_constructible_v<T>
+                                  && std::disjunction_v<std::is_trivially_destructible<T>,
+                                                        has_move_constructor<T>>>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
-- 
2.43.0


From d8b596d0978cafe8cb1e8c87e461b130278acbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 09/50] fix: release what a failed converter produced, and let
 method converters compile

---
 include/rtti/metatype.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index f76186e..ececc53 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -709,6 +709,8 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
         auto from = static_cast<From const*>(in);
         auto result = false;
         new (out) To(_this.m_func(*from, result));
+        if (!result)
+            type_function_table_impl<To>::destroy(out);
         return result;
     }
 
@@ -737,7 +739,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         {
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
-            new (out) To(from->*_this.m_func());
+            new (out) To((from->*_this.m_func)());
             return true;
         }
         catch (...)
@@ -770,7 +772,9 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         auto &_this = static_cast<this_t const&>(self);
         auto from = static_cast<From const*>(in);
         auto result = false;
-        new (out) To(from->*_this.m_func(result));
+        new (out) To((from->*_this.m_func)(result));
+        if (!result)
+            type_function_table_impl<To>::destroy(out);
         return result;
     }
 
-- 
2.43.0


From 5c1476092cf65b5e75f9dad866c9951175237975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 10/50] fix: std::hash of mpl::ID did not compile

---
 include/rtti/tagged_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/tagged_id.h b/include/rtti/tagged_id.h
index 69e6783..28b4ea3 100644
--- a/include/rtti/tagged_id.h
+++ b/include/rtti/tagged_id.h
@@ -61,7 +61,7 @@ struct hash<mpl::ID<Tag, Type, default_value>>
 
     result_type operator()(argument_type const &id) const
     {
-        return std::hash<Type>(id.value());
+        return std::hash<Type>{}(id.value());
     }
 };
 
-- 
2.43.0


From 85d2da507f684d5aa8d84bcdd298c13f60bf33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 11/50] fix: variant equality of arrays, pointers and pointers
 to const

Comparing an array with the pointer it decays to read through the wrong
pointer, a longer array was equal to its own beginning (in one direction
only), and pointers differing in constness were equal one way round.
---
 src/variant.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 14f474c..cc1e42e 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -98,16 +98,19 @@ bool variant::operator==(variant const &value) const
     auto mt_left  = MetaType{this->internalTypeId(type_attribute::LREF_CONST)};
     auto mt_right = MetaType{value.internalTypeId(type_attribute::LREF_CONST)};
 
-    if (MetaType::compatible(mt_right, mt_left))
+    // An array is not equal to a pointer or to an array of another length
+    if (mt_right.isArray() != mt_left.isArray())
+        return false;
+    if (mt_right.isArray() && mt_right.typeSize() != mt_left.typeSize())
+        return false;
+
+    if (mt_right.decayId() == mt_left.decayId())
     {
-        if (mt_right.decayId() == mt_left.decayId())
-        {
-            auto ptr = value.raw_data_ptr();
-            if (mt_right.isArray())
-                ptr = *reinterpret_cast<void const *const *>(ptr);
+        auto ptr = value.raw_data_ptr();
+        if (mt_right.isArray())
+            ptr = *reinterpret_cast<void const *const *>(ptr);
 
-            return manager->f_compare_eq(storage, ptr);
-        }
+        return manager->f_compare_eq(storage, ptr);
     }
 
     return false;
-- 
2.43.0


From 48a691ba3a5fccc08630b75cebba5d2c7e665c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 12/50] fix: variant::eq used converters to pointers as
 converters to arrays

A converter to the pointer an array decays to wrote and compared a
pointer in a buffer made for the array.
---
 include/rtti/detail/variant_impl.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 3b07e9a..ea88dbc 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -480,17 +480,19 @@ bool variant::eq(T const &value) const
     auto mt_self = MetaType{internalTypeId(type_attribute::NONE)};
     auto mt_value = MetaType{metaTypeId<T>()};
 
-    if (MetaType::hasConverter(mt_self, mt_value))
-    {
-        std::aligned_storage_t<sizeof(T), alignof(T)> buffer;
-        if (MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value))
+    // Converters yield decayed types, never arrays
+    if constexpr(!std::is_array_v<T>)
+        if (MetaType::hasConverter(mt_self, mt_value))
         {
-            FINALLY { type_manager_t<T>::destroy(&buffer); };
-            return type_manager_t<T>::compare_eq(std::addressof(value), &buffer);
+            std::aligned_storage_t<sizeof(T), alignof(T)> buffer;
+            if (MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value))
+            {
+                FINALLY { type_manager_t<T>::destroy(&buffer); };
+                return type_manager_t<T>::compare_eq(std::addressof(value), &buffer);
+            }
         }
-    }
 
-    if (MetaType::hasConverter(mt_value, mt_self))
+    if (!mt_self.isArray() && MetaType::hasConverter(mt_value, mt_self))
     {
         auto *buffer = mt_self.allocate();
         FINALLY { mt_self.deallocate(buffer); };
@@ -504,10 +506,7 @@ bool variant::eq(T const &value) const
         if (MetaType::convert(address, mt_value, buffer, mt_self))
         {
             FINALLY { mt_self.destroy(buffer); };
-            auto ptr = raw_data_ptr();
-            if (mt_self.isArray())
-                ptr = *reinterpret_cast<void const *const *>(ptr);
-            return mt_self.compare_eq(ptr, buffer);
+            return mt_self.compare_eq(raw_data_ptr(), buffer);
         }
     }
 
-- 
2.43.0


From 262361cd9b7eeb10438b7e85afa618af90d8f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 13/50] fix: equal variants have equal hashes

std::hash<variant> hashed the raw bytes of the value, padding, unused
capacity and owned pointers included, so that equal values (two equal
strings, or a value and a reference to it) had different hashes.
---
 include/rtti/detail/variant_impl.h | 46 ++++++++++++++++++++++++------
 include/rtti/variant.h             | 10 +++++--
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index ea88dbc..967cdf2 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -396,6 +396,37 @@ private:
     using C = std::remove_pointer_t<Decay>;
 };
 
+// Hash of the contained value, consistent with its operator ==
+template<typename T>
+struct hash_get
+{
+    // Address of the value as returned by variant_function_table_impl<T>::access
+    static std::size_t hash(void const *value)
+    {
+        if constexpr(std::is_array_v<Decay>)
+        {
+            auto *it = *static_cast<Base const *const *>(value);
+            auto result = std::size_t{0};
+            for (std::size_t i = 0; i < array_length_v<Decay>; ++i)
+                result = result * 31 + element(it[i]);
+            return result;
+        }
+        else
+            return element(*static_cast<Base const *>(value));
+    }
+private:
+    using Decay = remove_all_cv_t<unwrap_reference_t<std::remove_cv_t<T>>>;
+    using Base = std::remove_all_extents_t<Decay>;
+
+    static std::size_t element([[maybe_unused]] Base const &value)
+    {
+        if constexpr(std::is_default_constructible_v<std::hash<Base>>)
+            return std::hash<Base>{}(value);
+        else
+            return 0;
+    }
+};
+
 template<typename T>
 inline variant_function_table const* variant_function_table_for() noexcept
 {
@@ -408,7 +439,8 @@ inline variant_function_table const* variant_function_table_for() noexcept
         &variant_function_table_impl<T>::move,
         &variant_function_table_impl<T>::destroy,
         &variant_function_table_impl<T>::compare_eq,
-        &class_info_get<T>::info
+        &class_info_get<T>::info,
+        &hash_get<T>::hash
     };
     return &result;
 }
@@ -425,7 +457,8 @@ inline variant_function_table const* variant_function_table_for<void>() noexcept
         [] (variant_type_storage&, variant_type_storage&) noexcept {},
         [] (variant_type_storage&) noexcept {},
         [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
-        [] (variant_type_storage const&) noexcept { return ClassInfo(); }
+        [] (variant_type_storage const&) noexcept { return ClassInfo(); },
+        [] (void const*) noexcept { return std::size_t{0}; }
     };
     return &result;
 }
@@ -442,7 +475,8 @@ inline variant_function_table const* variant_function_table_for<variant>() noexc
         [] (variant_type_storage&, variant_type_storage&) noexcept {},
         [] (variant_type_storage&) noexcept {},
         [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
-        [] (variant_type_storage const&) noexcept { return ClassInfo(); }
+        [] (variant_type_storage const&) noexcept { return ClassInfo(); },
+        [] (void const*) noexcept { return std::size_t{0}; }
     };
     return &result;
 }
@@ -586,11 +620,7 @@ struct hash<rtti::variant>: public std::__hash_base<std::size_t, rtti::variant>
         if (!value)
             return 0;
 
-        auto type = rtti::MetaType{value.typeId()};
-        auto ptr = value.raw_data_ptr({});
-        if (type.isArray())
-            ptr = *reinterpret_cast<void const * const *>(ptr);
-        return _Hash_impl::hash(ptr, type.typeSize());
+        return value.hash({});
     }
 };
 
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 1231aed..fba7bed 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -44,6 +44,7 @@ namespace internal {
         using destroy_t        = void (*)(variant_type_storage &);
         using compare_eq_t     = bool (*)(variant_type_storage const &, void const *);
         using info_t           = ClassInfo (*)(variant_type_storage const &);
+        using hash_t           = std::size_t (*)(void const *);
 
         type_t const f_type                     = nullptr;
         access_t const f_access                 = nullptr;
@@ -54,10 +55,12 @@ namespace internal {
         destroy_t const f_destroy               = nullptr;
         compare_eq_t const f_compare_eq         = nullptr;
         info_t const f_info                     = nullptr;
+        hash_t const f_hash                     = nullptr;
 
         variant_function_table(type_t type, access_t access, copy_construct_t copy_construct,
                                move_construct_t move_construct, copy_t copy, move_t move,
-                               destroy_t destroy, compare_eq_t compare_eq, info_t info) noexcept
+                               destroy_t destroy, compare_eq_t compare_eq, info_t info,
+                               hash_t hash) noexcept
             : f_type{type}
             , f_access{access}
             , f_copy_construct{copy_construct}
@@ -67,6 +70,7 @@ namespace internal {
             , f_destroy{destroy}
             , f_compare_eq{compare_eq}
             , f_info(info)
+            , f_hash(hash)
         {}
     };
 
@@ -614,8 +618,8 @@ private:
         friend void swap(variant&, variant&) noexcept;
     };
 public:
-    void const* raw_data_ptr(RawPtrAccessKey) const noexcept
-    { return raw_data_ptr(); }
+    std::size_t hash(RawPtrAccessKey) const noexcept
+    { return manager->f_hash(raw_data_ptr()); }
     void swap(variant &other, SwapAccessKey) noexcept
     { swap(other); }
 };
-- 
2.43.0


From 69276d6ad3e2be2dfb013ec728e667feb0d982a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 14/50] fix: a null pointer in a variant has no dynamic type to
 ask for

---
 include/rtti/detail/variant_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 967cdf2..4ef0d4c 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -379,6 +379,8 @@ struct class_info_get
                 if constexpr(is_registered::value)
                 {
                     auto ptr = reinterpret_cast<C const * const *>(instance);
+                    if (!*ptr)
+                        return ClassInfo{metaTypeId<C>(), nullptr};
                     return (*ptr)->classInfo();
                 }
                 else
-- 
2.43.0


From db979767df13bf883ec9d5beb1e36b09712f7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 15/50] fix: MetaMethod::invoke without arguments did not
 compile

---
 include/rtti/detail/metamethod_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index 0aaf9f4..b8019e2 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -11,8 +11,10 @@ variant MetaMethod::invoke(Args&&... args) const
     auto interface = invoker();
     if (interface->isStatic())
         return interface->invoke_static(std::forward<Args>(args)...);
-    else
+    else if constexpr(sizeof...(Args) > 0)
         return interface->invoke_method(std::forward<Args>(args)...);
+    else
+        throw invoke_error{"Trying to invoke method " + qualifiedName() + " without instance"};
 }
 
 } // namespace rtti
-- 
2.43.0


From 0a4544a1e024bd5bdeb33cc9c0ca7f01423c754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 16/50] fix: properties with static getter and setter did not
 compile

---
 include/rtti/metadefine.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index a9f7428..8943e0a 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -781,7 +781,7 @@ struct PropertyInvokerEx: IPropertyInvoker
     {}
 
     bool isStatic() const override
-    { return std::is_function_v<G>; }
+    { return is_static_v<G>; }
 
     MetaType_ID typeId() const override
     { return metaTypeId<T>(); }
@@ -805,8 +805,12 @@ struct PropertyInvokerEx: IPropertyInvoker
     { MethodInvoker<S>{m_set}.invoke_method(instance, std::move(arg)); }
 
 private:
+    // functions have been decayed to pointers
+    template<typename F>
+    static constexpr auto is_static_v = std::is_function_v<std::remove_pointer_t<F>>;
+
     static constexpr auto valid = conditional_v<
-     (std::is_function_v<G> && (std::is_void_v<S> || std::is_function_v<S>))
+     (is_static_v<G> && (std::is_void_v<S> || is_static_v<S>))
      ||
      (std::is_member_function_pointer_v<G> && (std::is_void_v<S> || std::is_member_function_pointer_v<S>)),
      std::true_type, std::false_type>;
-- 
2.43.0


From e6211c76a74728c065a643ef2283b4c8cdd74eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 17/50] fix: deferred definitions run once and complete before
 anyone sees the contents

---
 src/metacontainer.cpp         | 21 +++++++++++++++++----
 src/private/metaclass_p.h     | 10 ++++++++--
 src/private/metacontainer_p.h | 16 ++++++++++++----
 src/private/metaitem_p.h      | 12 +++++++++---
 4 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 2bacc45..8195929 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -14,6 +14,12 @@ namespace rtti {
 
 namespace internal {
 
+std::recursive_mutex& definition_mutex()
+{
+    static std::recursive_mutex result;
+    return result;
+}
+
 //--------------------------------------------------------------------------------------------------------------------------------
 // MetaItemList
 //--------------------------------------------------------------------------------------------------------------------------------
@@ -43,7 +49,7 @@ bool MetaItemList::add(MetaItem *value)
     return false;
 }
 
-inline MetaItem* MetaItemList::get(std::size_t index) const
+MetaItem* MetaItemList::get(std::size_t index) const
 {
     std::shared_lock<std::shared_mutex> lock{m_lock};
     if (index < m_items.size())
@@ -144,23 +150,30 @@ MetaContainer::MetaContainer(MetaContainerPrivate &value)
 void MetaContainer::setDeferredDefine(std::unique_ptr<IDefinitionCallbackHolder> callback)
 {
     auto d = d_func();
+    std::lock_guard lock{internal::definition_mutex()};
     if (d->m_deferredDefine)
         throw definition_error{"Metacontainer " + qualifiedName() +
                                " already has deferred definition"};
     d->m_deferredDefine = std::move(callback);
+    d->m_deferredPending.store(d->m_deferredDefine != nullptr, std::memory_order_release);
 }
 
 void MetaContainer::checkDeferredDefine() const
 {
     auto d = d_func();
-    if (!d->m_deferredDefine)
+    if (!d->m_deferredPending.load(std::memory_order_acquire))
         return;
-    if (d->m_deferredDefine_lock.exchange(true, std::memory_order_acquire))
+
+    std::lock_guard lock{internal::definition_mutex()};
+    // either done by another thread or running right now on this one
+    if (!d->m_deferredDefine || d->m_deferredRunning)
         return;
 
+    d->m_deferredRunning = true;
     FINALLY{
         d->m_deferredDefine = nullptr;
-        d->m_deferredDefine_lock.store(false, std::memory_order_release);
+        d->m_deferredRunning = false;
+        d->m_deferredPending.store(false, std::memory_order_release);
     };
 
     d->m_deferredDefine->invoke(*const_cast<MetaContainer*>(this));
diff --git a/src/private/metaclass_p.h b/src/private/metaclass_p.h
index d7f5c77..680b95d 100644
--- a/src/private/metaclass_p.h
+++ b/src/private/metaclass_p.h
@@ -97,9 +97,15 @@ namespace internal {
     template<typename F>
     inline void BaseClassList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // items are never removed, and lock should not be held by callback
+        for (std::size_t index = 0;; ++index)
         {
+            std::shared_lock lock{m_lock};
+            if (index >= m_items.size())
+                break;
+            auto const item = m_items[index];
+            lock.unlock();
+
             if (!func(item))
                 break;
         }
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index 63ee7a9..14d98e8 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -2,6 +2,7 @@
 #define METACONTAINER_P_H
 
 #include <atomic>
+#include <mutex>
 
 #include "metaitem_p.h"
 #include <rtti/metacontainer.h>
@@ -9,6 +10,10 @@
 namespace rtti {
 namespace internal {
 
+// Serializes deferred definitions. One recursive mutex for all containers, since definition of one
+// container may need contents of another one
+RTTI_PRIVATE std::recursive_mutex& definition_mutex();
+
 class RTTI_PRIVATE MetaItemList
 {
 public:
@@ -36,10 +41,10 @@ private:
 template<typename F>
 inline void MetaItemList::for_each(F &&func) const
 {
-    std::shared_lock lock{m_lock};
-    for(auto &item: m_items)
+    // items are never removed, and lock should not be held by callback
+    for (std::size_t index = 0; auto *item = get(index); ++index)
     {
-        if (!func(item.get()))
+        if (!func(item))
             break;
     }
 }
@@ -73,7 +78,10 @@ private:
          &m_methods, &m_enums, &m_constructors}
     };
 
-    mutable std::atomic_bool m_deferredDefine_lock = false;
+    // true while deferred definition is waiting or running
+    mutable std::atomic_bool m_deferredPending = false;
+    // guarded by definition_mutex
+    mutable bool m_deferredRunning = false;
     mutable std::unique_ptr<IDefinitionCallbackHolder> m_deferredDefine;
 
     friend class rtti::MetaContainer;
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 9de38ba..62a1b5c 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -72,10 +72,16 @@ namespace internal {
     template<typename F>
     inline void NamedVariantList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // items are never removed, and lock should not be held by callback
+        for (std::size_t index = 0;; ++index)
         {
-            if (!func(item->name, item->value))
+            std::shared_lock lock{m_lock};
+            if (index >= m_items.size())
+                break;
+            auto const &item = *m_items[index];
+            lock.unlock();
+
+            if (!func(item.name, item.value))
                 break;
         }
     }
-- 
2.43.0


From 9a75f2c2ab5eee28c176f89ff3bcf6e6e631277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 18/50] fix: qualified names were composed without
 synchronization on first use

---
 src/metaitem.cpp         | 9 +--------
 src/private/metaitem_p.h | 6 ++++--
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/metaitem.cpp b/src/metaitem.cpp
index 79f45ed..e1e60cd 100644
--- a/src/metaitem.cpp
+++ b/src/metaitem.cpp
@@ -44,19 +44,12 @@ namespace internal {
 // MetaItemPrivate
 //--------------------------------------------------------------------------------------------------------------------------------
 
-inline std::string MetaItemPrivate::makeQualifiedName() const
+std::string MetaItemPrivate::makeQualifiedName() const
 {
     std::string result = m_owner ? m_owner->qualifiedName() : "";
     return std::move(result) + (m_owner ? "::" + m_name : "");
 }
 
-inline std::string const& MetaItemPrivate::qualifiedName() const
-{
-    if (m_qualifiedName.empty())
-        m_qualifiedName = makeQualifiedName();
-    return m_qualifiedName;
-}
-
 MetaItemPrivate::~MetaItemPrivate() = default;
 
 //--------------------------------------------------------------------------------------------------------------------------------
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 62a1b5c..84cbf58 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -105,6 +105,7 @@ public:
     MetaItemPrivate(std::string_view name, MetaContainer const &owner)
         : m_name(name)
         , m_owner(&owner)
+        , m_qualifiedName(makeQualifiedName())
     {}
 
     virtual ~MetaItemPrivate();
@@ -114,15 +115,16 @@ protected:
     { return m_name; }
     MetaContainer const *owner() const
     { return m_owner; }
-    std::string const &qualifiedName() const;
+    std::string const &qualifiedName() const
+    { return m_qualifiedName; }
 
 private:
     std::string makeQualifiedName() const;
 
     std::string const m_name;
     MetaContainer const *m_owner = nullptr;
+    std::string const m_qualifiedName = {};
     internal::NamedVariantList m_attributes;
-    mutable std::string m_qualifiedName = {};
 
     friend class rtti::MetaItem;
 };
-- 
2.43.0


From c7971492b63eb95bea3ccac38ef40670dc2131f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 19/50] fix: a class name cannot stand for two types, and
 concurrent class definitions agree

---
 src/metaclass.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 29a4572..7e68087 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -18,7 +18,11 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
 {
     using namespace std::literals;
 
+    std::lock_guard lock{internal::definition_mutex()};
     auto result = const_cast<MetaClass *>(owner.getClass(name));
+    if (result && result->metaTypeId() != typeId)
+        throw duplicate_metaclass{"Name "s + result->qualifiedName() +
+                                  " already belongs to class of another type"};
     if (!result)
     {
         auto type = MetaType{typeId};
@@ -29,14 +33,10 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
             throw duplicate_metaclass{"Class "s + type.typeName() + " already registered as: "
                                       + metaClass.load()->qualifiedName()};
 
+        // class should be known by its type before it can be found in the container
         result = new MetaClass(name, owner, typeId);
-        if (INVOKE_PROTECTED(owner, addItem, result))
-            metaClass.store(result);
-        else
-        {
-            delete result;
-            result = const_cast<MetaClass *>(owner.getClass(name));
-        }
+        metaClass.store(result);
+        INVOKE_PROTECTED(owner, addItem, result);
     }
     return result;
 }
-- 
2.43.0


From 6124af953bf26b4ec7584709c9e083cb4b3b8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 20/50] fix: redefining an inherited method or property in a
 derived class was ignored

---
 src/metamethod.cpp   | 7 +++++--
 src/metaproperty.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/metamethod.cpp b/src/metamethod.cpp
index ffa0762..17c4038 100644
--- a/src/metamethod.cpp
+++ b/src/metamethod.cpp
@@ -26,14 +26,17 @@ MetaMethod* MetaMethod::create(std::string_view name, MetaContainer &owner,
         return nullptr;
 
     auto signature = invoker->signature(name);
-    auto result = const_cast<MetaMethod*>(owner.getMethod(signature));
+    // only methods of the owner itself, not inherited ones
+    auto result = static_cast<MetaMethod*>(const_cast<MetaItem*>(
+        INVOKE_PROTECTED(owner, item, mcatMethod, signature)));
     if (!result)
     {
         result = new MetaMethod{signature, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaMethod*>(owner.getMethod(signature));
+            result = static_cast<MetaMethod*>(const_cast<MetaItem*>(
+                INVOKE_PROTECTED(owner, item, mcatMethod, signature)));
         }
     }
     return result;
diff --git a/src/metaproperty.cpp b/src/metaproperty.cpp
index 1da43c8..82684b7 100644
--- a/src/metaproperty.cpp
+++ b/src/metaproperty.cpp
@@ -18,14 +18,17 @@ MetaProperty* MetaProperty::create(std::string_view name, MetaContainer &owner,
     if (name.empty() || !invoker)
         return nullptr;
 
-    auto result = const_cast<MetaProperty*>(owner.getProperty(name));
+    // only properties of the owner itself, not inherited ones
+    auto result = static_cast<MetaProperty*>(const_cast<MetaItem*>(
+        INVOKE_PROTECTED(owner, item, mcatProperty, name)));
     if (!result)
     {
         result = new MetaProperty{name, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaProperty*>(owner.getProperty(name));
+            result = static_cast<MetaProperty*>(const_cast<MetaItem*>(
+                INVOKE_PROTECTED(owner, item, mcatProperty, name)));
         }
     }
     return result;
-- 
2.43.0


From 96cef85630094c543dab6813c52b9a4e0d01c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 21/50] fix: defining a second item with an empty name
 dereferenced null

---
 src/metacontainer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 8195929..4b3a458 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -59,9 +59,6 @@ MetaItem* MetaItemList::get(std::size_t index) const
 
 inline MetaItem* MetaItemList::get(std::string_view name) const
 {
-    if (name.empty())
-        return nullptr;
-
     std::shared_lock<std::shared_mutex> lock{m_lock};
     if (auto it = m_names.find(name); it != std::end(m_names))
         if (auto index = it->second; index < m_items.size())
-- 
2.43.0


From 56df101816544937377e1bf40723c2533961a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 22/50] fix: methods named operator() could not be found by
 name

---
 src/metacontainer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 4b3a458..4c29009 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -88,6 +88,14 @@ inline bool MetaContainerPrivate::addItem(MetaItem *value)
     return m_lists[category]->add(value);
 }
 
+// Start of parameter list, "operator()" is the only name with parentheses of its own
+inline static std::size_t parameters_pos(std::string const &methodName)
+{
+    constexpr auto call_operator = std::string_view{"operator()"};
+    auto isCall = (methodName.compare(0, call_operator.size(), call_operator) == 0);
+    return methodName.find('(', isCall ? call_operator.size() : 0);
+}
+
 MetaItem* MetaContainerPrivate::findMethod(MetaCategory category, std::string_view name) const
 {
     MetaItem *result = nullptr;
@@ -95,7 +103,7 @@ MetaItem* MetaContainerPrivate::findMethod(MetaCategory category, std::string_vi
     {
         auto const &methodName = item->name();
 
-        if (auto pos = methodName.find('(');
+        if (auto pos = parameters_pos(methodName);
             pos != std::string::npos)
         {
             auto length = std::min(pos, name.size());
-- 
2.43.0


From 3a483059348b6ba9ed84f7ac28ce2730d5d2785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 23/50] fix: null, empty and non-class instances of methods and
 properties are errors

---
 include/rtti/metadefine.h | 68 ++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 8943e0a..788612c 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -62,6 +62,16 @@ inline auto make_definition_callback(F &&func)
     return std::unique_ptr<IDefinitionCallbackHolder>{new callback_holder_t{std::forward<F>(func)}};
 }
 
+// Pointer to the class instance, which variant holds by pointer
+template<typename P>
+inline P instance_ptr(variant const &instance)
+{
+    auto result = instance.to<P>();
+    if (!result)
+        throw invoke_error{"Null pointer to instance of class"};
+    return result;
+}
+
 struct void_static_func{};
 struct return_static_func{};
 struct void_member_func {};
@@ -294,7 +304,9 @@ private:
     {
         using namespace std::literals;
         auto type = MetaType{instance.typeId()};
-        if (type.isClass())
+        if (type.isClassPtr())
+            (instance_ptr<class_ptr_t>(instance)->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
         {
             if constexpr(is_const_method::value)
                 (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
@@ -302,8 +314,6 @@ private:
                 throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +
                                        type_name<class_ref_t>()};
         }
-        else if (type.isClassPtr())
-            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
 
         return variant::empty_variant;
     }
@@ -313,10 +323,10 @@ private:
                               argument_array_t const &args, mpl::index_sequence<I...>)
     {
         auto type = MetaType{instance.typeId()};
-        if (type.isClass())
+        if (type.isClassPtr())
+            (instance_ptr<class_ptr_t>(instance)->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
             (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
-        else if (type.isClassPtr())
-            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
 
         return variant::empty_variant;
     }
@@ -407,18 +417,14 @@ private:
     {
         using namespace std::literals;
         auto type = MetaType{instance.typeId()};
-        if (type.isClass())
-        {
-            if constexpr(is_const_method::value)
-                return reference_get((instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));
-            else
-                throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +
-                                       type_name<class_ref_t>()};
-        }
-        else if (type.isClassPtr())
-            return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
+        if (type.isClassPtr())
+            return reference_get((instance_ptr<class_ptr_t>(instance)->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        if constexpr(is_const_method::value)
+            return reference_get((instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));
+        else
+            throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +
+                                   type_name<class_ref_t>()};
     }
 
     template<std::size_t ...I>
@@ -426,12 +432,10 @@ private:
                               mpl::index_sequence<I...>)
     {
         auto type = MetaType{instance.typeId()};
-        if (type.isClass())
-            return reference_get((instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));
-        else if (type.isClassPtr())
-            return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
+        if (type.isClassPtr())
+            return reference_get((instance_ptr<class_ptr_t>(instance)->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        return reference_get((instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));
     }
 };
 
@@ -694,11 +698,9 @@ struct property_invoker<P, member_pointer>
     static variant get_field(P property, variant const &instance)
     {
         auto type = MetaType{instance.typeId()};
-        if (type.isClass())
-            return std::ref(instance.ref<C const>().*property);
-        else if (type.isClassPtr())
-            return std::ref(instance.to<C const *>()->*property);
-        return variant::empty_variant;
+        if (type.isClassPtr())
+            return std::ref(instance_ptr<C const *>(instance)->*property);
+        return std::ref(instance.ref<C const>().*property);
     }
 
     static void set_field(P property, variant const &instance, argument const &arg)
@@ -709,11 +711,11 @@ struct property_invoker<P, member_pointer>
         else
         {
             auto type = MetaType{instance.typeId()};
-            if (type.isClass())
+            if (type.isClassPtr())
+                instance_ptr<C*>(instance)->*property = arg.value<T>();
+            else
                 throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +
                                        type_name<class_ref_t>()};
-            else if (type.isClassPtr())
-                instance.to<C*>()->*property = arg.value<T>();
         }
     }
 
@@ -724,10 +726,10 @@ struct property_invoker<P, member_pointer>
         else
         {
             auto type = MetaType{instance.typeId()};
-            if (type.isClass())
+            if (type.isClassPtr())
+                instance_ptr<C*>(instance)->*property = arg.value<T>();
+            else
                 instance.ref<C>().*property = arg.value<T>();
-            else if (type.isClassPtr())
-                instance.to<C*>()->*property = arg.value<T>();
         }
     }
 private:
-- 
2.43.0


From 30d6390ce6e1bb99dd08f7999a8ef8397cf4062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 24/50] fix: a newly registered converter is used, and
 destroying one leaves those of others

---
 include/rtti/metatype.h | 68 +++++++++++++++++++++++++++++++----------
 src/metatype.cpp        | 19 ++++++++++++
 2 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index ececc53..c550544 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,7 +10,9 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <forward_list>
 #include <memory>
+#include <mutex>
 #include <new>
 
 namespace rtti {
@@ -159,6 +161,8 @@ private:
 
     static bool registerConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
                                   internal::ConvertFunctionBase const &converter);
+    static void unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
+                                    internal::ConvertFunctionBase const &converter);
     static bool convert(void const *from, MetaType fromType, void *to, MetaType toType);
     static bool convert(void const *from, MetaType_ID fromTypeId, void *to, MetaType_ID toTypeId);
 
@@ -171,6 +175,7 @@ private:
         template<typename> friend class internal::meta_type;
     };
     friend class rtti::variant;
+    friend struct internal::ConvertFunctionBase;
 public:
     TypeInfo const* typeInfo(TypeInfoKey) const
     { return m_typeInfo; }
@@ -648,6 +653,13 @@ struct RTTI_PRIVATE ConvertFunctionBase
     {
         return m_converter(*this, in, out);
     }
+protected:
+    // Another converter could be registered for the same types by now
+    template<typename From, typename To>
+    void unregister() const
+    {
+        MetaType::unregisterConverter(metaTypeId<From>(), metaTypeId<To>(), *this);
+    }
 private:
     converter_t m_converter;
 };
@@ -665,7 +677,7 @@ struct RTTI_PRIVATE ConvertFunctor: ConvertFunctionBase
     {}
     ~ConvertFunctor()
     {
-        MetaType::unregisterConverter<From, To>();
+        this->template unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -700,7 +712,7 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
     {}
     ~ConvertFunctorOk()
     {
-        MetaType::unregisterConverter<From, To>();
+        this->template unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -730,7 +742,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
 
     ~ConvertMethod()
     {
-        MetaType::unregisterConverter<From, To>();
+        this->template unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -764,7 +776,7 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
 
     ~ConvertMethodOk()
     {
-        MetaType::unregisterConverter<From, To>();
+        this->template unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -782,6 +794,28 @@ private:
     func_t const m_func;
 };
 
+// Converters are kept till exit since they could be in use after being unregistered
+template<typename Converter>
+class RTTI_PRIVATE converter_list final
+{
+public:
+    template<typename Func, typename Register>
+    static bool add(Func &&func, Register &&registerFunc)
+    {
+        static converter_list list;
+        std::lock_guard lock{list.m_lock};
+        auto &converter = list.m_items.emplace_front(std::forward<Func>(func));
+        if (registerFunc(converter))
+            return true;
+
+        list.m_items.pop_front();
+        return false;
+    }
+private:
+    std::mutex m_lock;
+    std::forward_list<Converter> m_items;
+};
+
 } // namespace internal
 
 
@@ -798,17 +832,13 @@ inline bool MetaType::registerConverter_imp(Func &&func)
 {
     using Fu = full_decay_t<Func>;
     auto constexpr is_functorOk = std::is_invocable_r_v<To, Func, From, bool&>;
+    using converter_t = std::conditional_t<is_functorOk,
+        internal::ConvertFunctorOk<From, To, Fu>, internal::ConvertFunctor<From, To, Fu>>;
 
-    if constexpr(is_functorOk)
-    {
-        static internal::ConvertFunctorOk<From, To, Fu> converter{std::forward<Func>(func)};
-        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
-    }
-    else
+    return internal::converter_list<converter_t>::add(std::forward<Func>(func), [](auto const &converter)
     {
-        static internal::ConvertFunctor<From, To, Fu> converter{std::forward<Func>(func)};
         return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
-    }
+    });
 }
 
 template<typename From, typename To, typename Func>
@@ -837,8 +867,11 @@ inline bool MetaType::registerConverter()
 template<typename From, typename To>
 inline bool MetaType::registerConverter_imp(To(From::*func)() const)
 {
-    static internal::ConvertMethod<From, To> converter{func};
-    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    using converter_t = internal::ConvertMethod<From, To>;
+    return internal::converter_list<converter_t>::add(func, [](auto const &converter)
+    {
+        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    });
 }
 
 template<typename From, typename To>
@@ -854,8 +887,11 @@ inline bool MetaType::registerConverter(To(From::*func)() const)
 template<typename From, typename To>
 inline bool MetaType::registerConverter_imp(To(From::*func)(bool&) const)
 {
-    static internal::ConvertMethodOk<From, To> converter{func};
-    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    using converter_t = internal::ConvertMethodOk<From, To>;
+    return internal::converter_list<converter_t>::add(func, [](auto const &converter)
+    {
+        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    });
 }
 
 template<typename From, typename To>
diff --git a/src/metatype.cpp b/src/metatype.cpp
index 8aba7a3..7c5745d 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -369,6 +369,14 @@ namespace {
             std::unique_lock lock{m_lock};
             m_items.erase(key);
         }
+
+        void remove(key_t const &key, F const *func)
+        {
+            std::unique_lock lock{m_lock};
+            if (auto search = m_items.find(key);
+                search != std::end(m_items) && search->second == func)
+                m_items.erase(search);
+        }
     private:
         struct hash_key
         {
@@ -461,6 +469,17 @@ void MetaType::unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId)
             list->remove({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});
 }
 
+void MetaType::unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
+                                   internal::ConvertFunctionBase const &converter)
+{
+    auto fromType = MetaType{fromTypeId};
+    auto toType   = MetaType{toTypeId};
+
+    if (fromType.valid() && toType.valid())
+        if (auto list = customConverters())
+            list->remove({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, &converter);
+}
+
 static char const *flag_names[] = {"None",
 
                                    "Const",
-- 
2.43.0


From e90bd211b314710c33a0068cb5ae0f9533cfb6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 25/50] fix: swapping a variant with itself moved its value
 onto itself

---
 src/variant.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variant.cpp b/src/variant.cpp
index cc1e42e..ef2e78d 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -43,6 +43,9 @@ void variant::swap(variant &other) noexcept
 {
     using std::swap;
 
+    if (this == &other)
+        return;
+
     auto thisEmpty  = this->empty();
     auto otherEmpty = other.empty();
     if (thisEmpty && otherEmpty)
-- 
2.43.0


From 39aee872234f8b82bce50370e5a8ad6b99ab8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 26/50] fix: void** is not a void pointer and an array of
 classes is not a class

---
 include/rtti/metatype.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index c550544..e62f979 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -585,7 +585,7 @@ inline bool MetaType::isClass() const noexcept
 {
     auto flags = typeFlags();
     return ((flags & TypeFlags::Class) == TypeFlags::Class) &&
-           ((flags & TypeFlags::Pointer) == TypeFlags::None);
+           ((flags & (TypeFlags::Pointer | TypeFlags::Array)) == TypeFlags::None);
 }
 
 inline bool MetaType::isPointer() const noexcept
@@ -596,7 +596,8 @@ inline bool MetaType::isPointer() const noexcept
 inline bool MetaType::isVoidPtr() const noexcept
 {
     auto flags = typeFlags();
-    return ((flags & TypeFlags::Void) == TypeFlags::Void) &&
+    return (pointerArity() == 1) &&
+           ((flags & TypeFlags::Void) == TypeFlags::Void) &&
            ((flags & TypeFlags::Pointer) == TypeFlags::Pointer);
 }
 
-- 
2.43.0


From d77d88399bdff9476b44b9743997e1a723568716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 27/50] fix: pointers to arrays are not class, void or function
 pointers

---
 include/rtti/metatype.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index e62f979..15c7ec1 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -598,7 +598,7 @@ inline bool MetaType::isVoidPtr() const noexcept
     auto flags = typeFlags();
     return (pointerArity() == 1) &&
            ((flags & TypeFlags::Void) == TypeFlags::Void) &&
-           ((flags & TypeFlags::Pointer) == TypeFlags::Pointer);
+           ((flags & (TypeFlags::Pointer | TypeFlags::Array)) == TypeFlags::Pointer);
 }
 
 inline bool MetaType::isClassPtr() const noexcept
@@ -606,7 +606,7 @@ inline bool MetaType::isClassPtr() const noexcept
     auto flags = typeFlags();
     return (pointerArity() == 1) &&
            ((flags & TypeFlags::Class) == TypeFlags::Class) &&
-            ((flags & TypeFlags::Pointer) == TypeFlags::Pointer);
+           ((flags & (TypeFlags::Pointer | TypeFlags::Array)) == TypeFlags::Pointer);
 }
 
 inline bool MetaType::isFunctionPtr() const noexcept
@@ -614,7 +614,7 @@ inline bool MetaType::isFunctionPtr() const noexcept
     auto flags = typeFlags();
     return (pointerArity() == 1) &&
            ((flags & TypeFlags::Function) == TypeFlags::Function) &&
-            ((flags & TypeFlags::Pointer) == TypeFlags::Pointer);
+           ((flags & (TypeFlags::Pointer | TypeFlags::Array)) == TypeFlags::Pointer);
 }
 
 inline bool MetaType::isArray() const noexcept
-- 
2.43.0


From 04a58dd79fad02b37d5cb03bed62b3eea8692899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 28/50] fix: const under pointers held by arrays was ignored,
 such arrays matched no pointer

---
 include/rtti/misc_traits.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index 2c6339e..ce0d899 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -71,6 +71,11 @@ struct pointer_arity<T, false>:
     std::integral_constant<std::size_t, 0>
 {};
 
+// Pointers held by an array are levels of indirection as well
+template<typename T, std::size_t N>
+struct pointer_arity<T[N], false>: pointer_arity<T>
+{};
+
 template<typename T>
 struct pointer_arity<T, true>:
     std::integral_constant<std::size_t, pointer_arity_v<std::remove_pointer_t<T>> + 1>
@@ -199,6 +204,14 @@ struct const_bitset_helper<T, I, true, false>:
     std::integral_constant<std::size_t, 1 << I>
 {};
 
+template<typename T, std::size_t N, std::size_t I>
+struct const_bitset_helper<T[N], I, false, false>: const_bitset_helper<T, I>
+{};
+
+template<typename T, std::size_t N, std::size_t I>
+struct const_bitset_helper<T[N], I, true, false>: const_bitset_helper<T, I>
+{};
+
 template<typename T, std::size_t I>
 struct const_bitset_helper<T, I, false, true>:
     std::integral_constant<std::size_t, const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
-- 
2.43.0


From 52c678a2ab8ed6d41e8d82ba159dc3598ad59419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 29/50] fix: keep constness of pointed-to elements of an array
 held by value

---
 include/rtti/detail/variant_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 4ef0d4c..f28f365 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -336,7 +336,7 @@ struct variant_function_table_impl<T[N], false, false>
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
 private:
-    using U = Decay;
+    using U = std::remove_cv_t<T[N]>;
     using ULref = std::add_lvalue_reference_t<U>;
     using URref = std::add_rvalue_reference_t<U>;
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
-- 
2.43.0


From 4857ac2105e6f4e6b825ed1da6abf3051af16013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 30/50] fix: pointer to derived class could be overwritten
 through a reference to pointer to base

---
 include/rtti/variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index fba7bed..a34fed0 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -478,7 +478,8 @@ private:
         static void const* cast(variant const &self, MetaType from,
                                 std::integral_constant<int, 2>)
         {
-            if (from.isClassPtr())
+            // mutable reference would allow to store there pointer to object of another class
+            if (std::is_const_v<T> && from.isClassPtr())
             {
                 if (auto ptr = cast_imp(self))
                 {
-- 
2.43.0


From 68b5d0ecd54f515d5acd6a98f9c5cf891a999667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 31/50] fix: a null pointer was reported to be a pointer to
 base, though it could not be had as one

---
 include/rtti/variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index a34fed0..aadacc1 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -415,7 +415,8 @@ private:
             auto toClass   = MetaClass::find(metaTypeId<C>());
             if (!fromClass || !toClass)
                 return false;
-            return fromClass->inheritedFrom(toClass);
+            // null pointer points to no object of any class
+            return info.instance && fromClass->inheritedFrom(toClass);
         }
     };
 
-- 
2.43.0


From 0b01d30cc61c7ca03793a1be80a84287cb577e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 32/50] fix: constructors taking rvalues and mutable references
 of convertible types compile

Such constructors are not converting constructors for a value which is never modified,
registering them as converters could not compile.
---
 include/rtti/misc_traits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index ce0d899..b1655fb 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -235,7 +235,9 @@ struct is_converting_constructor: std::false_type
 
 template<typename T, typename Arg>
 struct is_converting_constructor<T, Arg>:
-    std::conditional_t<!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<Arg, T>,
+    // value being converted is never modified
+    std::conditional_t<!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<Arg, T> &&
+                       std::is_convertible_v<full_decay_t<Arg> const&, Arg>,
                        std::true_type, std::false_type>
 {};
 
-- 
2.43.0


From 859e7d64c26a7345d53ae52691123d2390df87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 33/50] fix: classes which can neither be copied nor moved can
 be registered

Their default constructor is not offered since its result could not be returned in variant.
---
 include/rtti/metadefine.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 788612c..2c93c01 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -1029,7 +1029,9 @@ private:
 
     void define_default_constructor()
     {
-        if constexpr(std::is_default_constructible_v<T>)
+        // result is returned inside variant
+        if constexpr(std::is_default_constructible_v<T> &&
+                     (std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>))
             _constructor();
     }
 
-- 
2.43.0


From ac9bd0c156f0495935f24ae64b241bc9f76ecfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 34/50] fix: methods and properties use object given as
 instance, not a temporary copy of it

Property of an object passed directly was returned as reference into destroyed copy.
---
 include/rtti/detail/metamethod_impl.h | 15 ++++++++++++++-
 include/rtti/variant.h                | 19 +++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index b8019e2..65ec1a8 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -12,11 +12,24 @@ variant MetaMethod::invoke(Args&&... args) const
     if (interface->isStatic())
         return interface->invoke_static(std::forward<Args>(args)...);
     else if constexpr(sizeof...(Args) > 0)
-        return interface->invoke_method(std::forward<Args>(args)...);
+        return invoke_method(*interface, std::forward<Args>(args)...);
     else
         throw invoke_error{"Trying to invoke method " + qualifiedName() + " without instance"};
 }
 
+template<typename T, typename ...Args>
+variant MetaMethod::invoke_method(IMethodInvoker const &interface, T &&instance, Args&&... args)
+{
+    if constexpr(std::is_same_v<std::decay_t<T>, variant> || std::is_same_v<std::decay_t<T>, argument>)
+        return interface.invoke_method(std::forward<T>(instance), std::forward<Args>(args)...);
+    else
+    {
+        // object itself, not a copy
+        auto self = variant{std::ref(instance)};
+        return interface.invoke_method(self, std::forward<Args>(args)...);
+    }
+}
+
 } // namespace rtti
 
 #endif // METAMETHOD_IMPL_H
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index aadacc1..32e6692 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -731,6 +731,9 @@ protected:
 private:
     IMethodInvoker const* invoker() const;
 
+    template<typename T, typename ...Args>
+    static variant invoke_method(IMethodInvoker const &interface, T &&instance, Args&&... args);
+
     DECLARE_ACCESS_KEY(CreateAccessKey)
         template<typename, typename> friend class rtti::meta_define;
     };
@@ -809,6 +812,13 @@ private:
         return interface->get_field(instance);
     }
 
+    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, variant>>>
+    variant get_impl(mpl::index_sequence<0> index, T &&instance) const
+    {
+        // object itself, not a copy
+        return get_impl(index, variant{std::ref(instance)});
+    }
+
     template<typename Arg>
     void set_impl(mpl::index_sequence<0>, Arg &&arg) const
     {
@@ -839,6 +849,15 @@ private:
         interface->set_field(instance, std::forward<Arg>(arg));
     }
 
+    template<typename T, typename Arg,
+             typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, variant>>>
+    void set_impl(mpl::index_sequence<0, 1> index, T &&instance, Arg &&arg) const
+    {
+        // object itself, not a copy
+        auto self = variant{std::ref(instance)};
+        set_impl(index, self, std::forward<Arg>(arg));
+    }
+
 private:
     DECLARE_ACCESS_KEY(CreateAccessKey)
         template<typename, typename> friend class rtti::meta_define;
-- 
2.43.0


From cc56e2943cf1ab48c2883bf4f096d141d94f09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 35/50] fix: a refused namespace or class definition leaves the
 container stack as it was

---
 include/rtti/metadefine.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 2c93c01..cc5b583 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -859,8 +859,9 @@ public:
         static_assert(std::is_void_v<T>, "Namespace can be defined only in another namespace");
         assert(m_currentContainer && m_currentContainer->category() == mcatNamespace && m_containerStack);
 
+        auto *container = MetaNamespace::create(name, *m_currentContainer, {});
         m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaNamespace::create(name, *m_currentContainer, {});
+        m_currentContainer = container;
         m_currentItem = m_currentContainer;
         return meta_define<void, this_t>{m_currentItem, m_currentContainer, m_containerStack};
     }
@@ -874,9 +875,10 @@ public:
                       "Class can be defined in namespace or anther class");
         assert(m_currentContainer && m_containerStack);
 
-        m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaClass::create(
+        auto *container = MetaClass::create(
             name, *m_currentContainer, metaTypeId<C>(), {});
+        m_containerStack->push(m_currentContainer);
+        m_currentContainer = container;
         m_currentItem = m_currentContainer;
 
         meta_define<C, this_t> result {m_currentItem, m_currentContainer, m_containerStack};
-- 
2.43.0


From f7f5b381f1f7f2cd70bdf4673776b76374036ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 36/50] fix: a failed allocation leaves items and attributes
 consistent

---
 src/metacontainer.cpp    | 15 +++++++++++++--
 src/private/metaitem_p.h | 13 +++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 4c29009..b8c512c 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -29,6 +29,8 @@ bool MetaItemList::add(MetaItem *value)
     if (!value)
         return false;
 
+    // owned only if it has been added, but never leaks
+    auto holder = item_t{value};
     std::unique_lock<std::shared_mutex> lock{m_lock};
     auto itemFound = (std::find_if(
                           std::cbegin(m_items), std::cend(m_items),
@@ -42,10 +44,19 @@ bool MetaItemList::add(MetaItem *value)
     if (!itemFound && !nameFound)
     {
         auto index = m_items.size();
-        m_items.emplace_back(value);
-        m_names.emplace(name, index);
+        auto position = m_names.emplace(name, index).first;
+        try
+        {
+            m_items.push_back(std::move(holder));
+        }
+        catch (...)
+        {
+            m_names.erase(position);
+            throw;
+        }
         return true;
     }
+    holder.release();
     return false;
 }
 
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 84cbf58..e8167a3 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -58,8 +58,17 @@ namespace internal {
         std::unique_lock lock{m_lock};
         if (auto search = m_names.find(name); search == std::end(m_names))
         {
-            auto &item = m_items.emplace_back(new named_variant{name, std::forward<T>(value)});
-            m_names.emplace(item->name, m_items.size() - 1);
+            auto item = std::make_unique<named_variant>(name, std::forward<T>(value));
+            auto position = m_names.emplace(item->name, m_items.size()).first;
+            try
+            {
+                m_items.push_back(std::move(item));
+            }
+            catch (...)
+            {
+                m_names.erase(position);
+                throw;
+            }
         }
         else
         {
-- 
2.43.0


From 7ec86632f4e40c1ca7aba66bbdee74cf6ec01b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 37/50] fix: a class whose definition failed is not known by
 its type

---
 include/rtti/metadefine.h |  9 +++++----
 src/metaclass.cpp         | 10 +++++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index cc5b583..2ebb7b8 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -877,14 +877,15 @@ public:
 
         auto *container = MetaClass::create(
             name, *m_currentContainer, metaTypeId<C>(), {});
-        m_containerStack->push(m_currentContainer);
-        m_currentContainer = container;
-        m_currentItem = m_currentContainer;
 
-        meta_define<C, this_t> result {m_currentItem, m_currentContainer, m_containerStack};
+        meta_define<C, this_t> result {container, container, m_containerStack};
         result.define_default_constructor();
         result.define_copy_constructor();
         result.define_move_constructor();
+
+        m_containerStack->push(m_currentContainer);
+        m_currentContainer = container;
+        m_currentItem = m_currentContainer;
         return result;
     }
 
diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 7e68087..3a99c51 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -36,7 +36,15 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
         // class should be known by its type before it can be found in the container
         result = new MetaClass(name, owner, typeId);
         metaClass.store(result);
-        INVOKE_PROTECTED(owner, addItem, result);
+        try
+        {
+            INVOKE_PROTECTED(owner, addItem, result);
+        }
+        catch (...)
+        {
+            metaClass.store(nullptr);
+            throw;
+        }
     }
     return result;
 }
-- 
2.43.0


From b64c0c19c43b01a00a8fd3a0b1ae1d7a152f72d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 38/50] fix: signature is complete or an exception is thrown

---
 include/rtti/signature.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/rtti/signature.h b/include/rtti/signature.h
index 7305282..26b8009 100644
--- a/include/rtti/signature.h
+++ b/include/rtti/signature.h
@@ -56,6 +56,8 @@ struct signature
     static std::string get(std::string_view name)
     {
         std::ostringstream os;
+        // incomplete signature is worse than an exception
+        os.exceptions(std::ios_base::badbit);
         auto it = prefix_ostream_iterator<std::string_view>{os, ", "};
         os << name << '(';
         (it = ... = type_name<Args>());
-- 
2.43.0


From 155994899bc60888746198cf4f4b9c3e9661e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 39/50] fix: a default constructed argument is not an rvalue

---
 include/rtti/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 32e6692..6c6fad6 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -674,7 +674,7 @@ private:
     template<typename T>
     T value(std::integral_constant<int, 3>) const;
 
-    bool m_rvalue;
+    bool m_rvalue = false;
     mutable variant m_value;
     mutable variant m_dummy;
 };
-- 
2.43.0


From 694cbd0031319976e281d63d248e993da4c14ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 40/50] fix: the empty variant is usable from static
 initializers of other files

---
 include/rtti/detail/variant_impl.h | 27 ++++++++++++++-------------
 include/rtti/variant.h             | 14 ++++++++++----
 src/variant.cpp                    |  2 +-
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index f28f365..e6b9942 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -447,22 +447,23 @@ inline variant_function_table const* variant_function_table_for() noexcept
     return &result;
 }
 
+inline constexpr auto void_function_table = variant_function_table{
+    [] (type_attribute) noexcept -> MetaType_ID { return MetaType_ID(); },
+    [] (variant_type_storage const&) noexcept -> void const* { return nullptr; },
+    [] (void const*, variant_type_storage&) noexcept {},
+    [] (void*, variant_type_storage&) noexcept {},
+    [] (variant_type_storage const&, variant_type_storage&) noexcept {},
+    [] (variant_type_storage&, variant_type_storage&) noexcept {},
+    [] (variant_type_storage&) noexcept {},
+    [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
+    [] (variant_type_storage const&) noexcept { return ClassInfo(); },
+    [] (void const*) noexcept { return std::size_t{0}; }
+};
+
 template<>
 inline variant_function_table const* variant_function_table_for<void>() noexcept
 {
-    static auto const result = variant_function_table{
-        [] (type_attribute) noexcept -> MetaType_ID { return MetaType_ID(); },
-        [] (variant_type_storage const&) noexcept -> void const* { return nullptr; },
-        [] (void const*, variant_type_storage&) noexcept {},
-        [] (void*, variant_type_storage&) noexcept {},
-        [] (variant_type_storage const&, variant_type_storage&) noexcept {},
-        [] (variant_type_storage&, variant_type_storage&) noexcept {},
-        [] (variant_type_storage&) noexcept {},
-        [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
-        [] (variant_type_storage const&) noexcept { return ClassInfo(); },
-        [] (void const*) noexcept { return std::size_t{0}; }
-    };
-    return &result;
+    return &void_function_table;
 }
 
 template<>
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 6c6fad6..9cd8be3 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -57,10 +57,11 @@ namespace internal {
         info_t const f_info                     = nullptr;
         hash_t const f_hash                     = nullptr;
 
-        variant_function_table(type_t type, access_t access, copy_construct_t copy_construct,
-                               move_construct_t move_construct, copy_t copy, move_t move,
-                               destroy_t destroy, compare_eq_t compare_eq, info_t info,
-                               hash_t hash) noexcept
+        constexpr variant_function_table(type_t type, access_t access,
+                                         copy_construct_t copy_construct,
+                                         move_construct_t move_construct, copy_t copy, move_t move,
+                                         destroy_t destroy, compare_eq_t compare_eq, info_t info,
+                                         hash_t hash) noexcept
             : f_type{type}
             , f_access{access}
             , f_copy_construct{copy_construct}
@@ -339,6 +340,11 @@ public:
     using type_attribute = internal::type_attribute;
     static variant const empty_variant;
 private:
+    // Constant initialization, empty_variant is used by static initializers of other files
+    constexpr explicit variant(internal::variant_function_table const &table) noexcept
+        : storage{}, manager{&table}
+    {}
+
     void swap(variant &other) noexcept;
 
     // Returns pointer to decayed type
diff --git a/src/variant.cpp b/src/variant.cpp
index ef2e78d..1b695fe 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -2,7 +2,7 @@
 
 namespace rtti {
 
-variant const variant::empty_variant = {};
+variant const variant::empty_variant{internal::void_function_table};
 
 variant::variant() noexcept
     : manager(internal::variant_function_table_for<void>())
-- 
2.43.0


From f2becb0cac42e0af5213307e4c7a8f5a4732e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 41/50] fix: destroyed class is not known by its type

---
 include/rtti/metaclass.h | 2 ++
 src/metaclass.cpp        | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/rtti/metaclass.h b/include/rtti/metaclass.h
index aff8c50..1ac8c54 100644
--- a/include/rtti/metaclass.h
+++ b/include/rtti/metaclass.h
@@ -22,6 +22,8 @@ class RTTI_API MetaClass final: public MetaContainer
 public:
     using cast_func_t = void const*(*)(void const*);
 
+    ~MetaClass() override;
+
     MetaCategory category() const override;
     static MetaClass const* find(MetaType_ID typeId);
     static MetaClass const* find(std::string_view name);
diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 3a99c51..3ae7164 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -14,6 +14,15 @@ MetaClass::MetaClass(std::string_view name, MetaContainer const &owner, MetaType
     : MetaContainer{*new MetaClassPrivate{name, owner, typeId}}
 {}
 
+MetaClass::~MetaClass()
+{
+    // Static destructors could look for the class after the containers are gone
+    auto d = d_func();
+    auto type = MetaType{d->m_typeId};
+    if (auto self = this; type.valid())
+        type.typeInfo({})->metaClass.compare_exchange_strong(self, nullptr);
+}
+
 MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaType_ID typeId)
 {
     using namespace std::literals;
-- 
2.43.0


From ddeed5a4e4537b441d7971b98f3340f825d3e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 42/50] fix: names of types outlive the module that used them
 first

The type table kept views of names which are part of the module, any later
registration or lookup after it had been unloaded read unmapped memory.
---
 src/metatype.cpp         |  2 +-
 src/private/metatype_p.h | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 7c5745d..a948e83 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -85,7 +85,7 @@ TypeInfo const* CustomTypes::addTypeInfo(std::string_view name, std::size_t size
     if (auto it = m_names.find(name); it == std::end(m_names))
     {
         auto &result = m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);
-        m_names.emplace(name, &result);
+        m_names.emplace(result.name, &result);
         return &result;
     }
     else
diff --git a/src/private/metatype_p.h b/src/private/metatype_p.h
index c09c11c..7513347 100644
--- a/src/private/metatype_p.h
+++ b/src/private/metatype_p.h
@@ -3,6 +3,7 @@
 
 #include <bitset>
 #include <atomic>
+#include <string>
 
 #include <rtti/metatype.h>
 #include <rtti/defines.h>
@@ -13,7 +14,8 @@ struct RTTI_PRIVATE TypeInfo
 {
     using const_bitset_t = std::bitset<16>;
 
-    std::string_view const name;
+    // copied since types outlive the modules they are first used by
+    std::string const name;
     std::size_t const size;
     MetaType_ID const decay;
     std::uint16_t const arity;
@@ -23,9 +25,9 @@ struct RTTI_PRIVATE TypeInfo
 
     mutable std::atomic<MetaClass *> metaClass = nullptr;
 
-    constexpr TypeInfo(std::string_view name, std::size_t size, MetaType_ID decay,
-                       std::uint16_t arity, std::uint16_t const_mask, TypeFlags flags,
-                       metatype_manager_t const *manager)
+    TypeInfo(std::string_view name, std::size_t size, MetaType_ID decay,
+             std::uint16_t arity, std::uint16_t const_mask, TypeFlags flags,
+             metatype_manager_t const *manager)
         : name{name}
         , size{size}
         , decay{decay.valid() ? decay : MetaType_ID{reinterpret_cast<MetaType_ID::type>(this)}}
-- 
2.43.0


From 54d31b06b74a6c0a42302aa0a524d85a57b8fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 43/50] fix: an action of a scope guard that was moved ran
 twice

---
 include/rtti/finally.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/rtti/finally.h b/include/rtti/finally.h
index 643beca..ad21c36 100644
--- a/include/rtti/finally.h
+++ b/include/rtti/finally.h
@@ -15,8 +15,13 @@ public:
     scope_guard() = delete;
     scope_guard(scope_guard const&) = delete;
     scope_guard& operator=(scope_guard const&) = delete;
-    scope_guard(scope_guard &&) noexcept = default;
-    scope_guard& operator=(scope_guard &&) noexcept = default;
+    scope_guard(scope_guard &&other) noexcept
+        : m_dismiss{other.m_dismiss}, m_function{std::move(other.m_function)}
+    {
+        // the action has one owner
+        other.m_dismiss = true;
+    }
+    scope_guard& operator=(scope_guard &&) = delete;
     explicit scope_guard(F const &function)
         noexcept(std::is_nothrow_copy_constructible<F>::value)
         : m_function{function}
-- 
2.43.0


From 61609bbc2e2dac3414837145b981eaeb0039e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 44/50] fix: function_traits of std::function did not compile

---
 include/rtti/function_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/function_traits.h b/include/rtti/function_traits.h
index efec932..1dda339 100644
--- a/include/rtti/function_traits.h
+++ b/include/rtti/function_traits.h
@@ -164,7 +164,7 @@ struct function_traits_helper<R(C::*)(Args...) const volatile &&>:
 };
 
 template <typename F>
-struct function_traits_helper<std::function<F>>: function_traits_helper<F>
+struct function_traits_helper<std::function<F>>: function_traits_helper<F*>
 {};
 
 } // namespace internal
-- 
2.43.0


From 53dc813d8c572fad8fd51b0592b8ddff3346fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 45/50] fix: make_function of noexcept callables did not
 compile

---
 include/rtti/function_traits.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/rtti/function_traits.h b/include/rtti/function_traits.h
index 1dda339..d6198d0 100644
--- a/include/rtti/function_traits.h
+++ b/include/rtti/function_traits.h
@@ -174,8 +174,24 @@ struct function_traits: internal::function_traits_helper<std::decay_t<F>>
 {};
 
 // Factory
+
+namespace internal {
+
+// std::function takes no noexcept signatures
+template<typename R, typename Args>
+struct function_type_helper;
+
+template<typename R, typename ...Args>
+struct function_type_helper<R, mpl::type_list<Args...>>
+{
+    using type = std::function<R(Args...)>;
+};
+
+} // namespace internal
+
 template<typename F>
-using function_type = std::function<typename function_traits<F>::base_signature>;
+using function_type = typename internal::function_type_helper<typename function_traits<F>::result_type,
+                                                              typename function_traits<F>::args>::type;
 
 template<typename F>
 inline function_type<F> make_function(F &&f)
-- 
2.43.0


From c6843c1e21611e59a4b41b3bf7e43c2cd321419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 46/50] fix: callables that are noexcept and qualified
 otherwise did not compile

---
 include/rtti/function_traits.h | 93 ++++++++++++++++++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/include/rtti/function_traits.h b/include/rtti/function_traits.h
index d6198d0..5b31816 100644
--- a/include/rtti/function_traits.h
+++ b/include/rtti/function_traits.h
@@ -163,6 +163,99 @@ struct function_traits_helper<R(C::*)(Args...) const volatile &&>:
     using uniform_signature = R(C const volatile&&, Args...);
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) & noexcept>:
+    function_traits_helper<R(C::*)(Args...) &>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(C&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) && noexcept>:
+    function_traits_helper<R(C::*)(Args...) &&>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(C&&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const & noexcept>:
+    function_traits_helper<R(C::*)(Args...) const &>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(C const&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const && noexcept>:
+    function_traits_helper<R(C::*)(Args...) const &&>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(C const&&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile noexcept>:
+    function_traits_helper<R(C::*)(Args...) volatile>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(volatile C&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile & noexcept>:
+    function_traits_helper<R(C::*)(Args...) volatile &>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(volatile C&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile && noexcept>:
+    function_traits_helper<R(C::*)(Args...) volatile &&>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(volatile C&&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile noexcept>:
+    function_traits_helper<R(C::*)(Args...) const volatile>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(C const volatile&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile & noexcept>:
+    function_traits_helper<R(C::*)(Args...) const volatile &>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(C const volatile&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile && noexcept>:
+    function_traits_helper<R(C::*)(Args...) const volatile &&>
+{
+    using is_noexcept = std::true_type;
+    using base_signature = R(Args...) noexcept;
+    using uniform_signature = R(C const volatile&&, Args...) noexcept;
+};
+
+#endif
+
 template <typename F>
 struct function_traits_helper<std::function<F>>: function_traits_helper<F*>
 {};
-- 
2.43.0


From 6f8a1ad31ed0f22b54745f8d263e6170f1aea517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 47/50] fix: index_sequence_for of a list holding one list
 counted the inner list

---
 include/rtti/typelist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/typelist.h b/include/rtti/typelist.h
index 54509b3..ee30ba8 100644
--- a/include/rtti/typelist.h
+++ b/include/rtti/typelist.h
@@ -467,11 +467,11 @@ struct index_sequence_for: make_index_sequence<sizeof...(Args)>
 {};
 
 template<typename ...Args>
-struct index_sequence_for<type_list<Args...>>: index_sequence_for<Args...>
+struct index_sequence_for<type_list<Args...>>: make_index_sequence<sizeof...(Args)>
 {};
 
 template<typename ...Args>
-struct index_sequence_for<std::tuple<Args...>>: index_sequence_for<Args...>
+struct index_sequence_for<std::tuple<Args...>>: make_index_sequence<sizeof...(Args)>
 {};
 
 template<typename ...Args>
-- 
2.43.0


From ffe489f981d4008896fe5fca038e8ec4df288004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 48/50] fix: lack of memory at first use of a type ended the
 process

---
 include/rtti/variant.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 9cd8be3..8004611 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -124,7 +124,7 @@ public:
     bool neq(T const &value) const
     { return !eq(value); }
 
-    MetaType_ID typeId() const noexcept
+    MetaType_ID typeId() const
     { return internalTypeId(); }
     MetaClass const* metaClass() const
     {
@@ -351,9 +351,10 @@ private:
     void const* raw_data_ptr() const noexcept
     { return manager->f_access(storage); }
 
-    MetaType_ID internalTypeId(type_attribute attr = type_attribute::NONE) const noexcept
+    // Types are registered when they are asked for the first time
+    MetaType_ID internalTypeId(type_attribute attr = type_attribute::NONE) const
     { return manager->f_type(attr); }
-    ClassInfo classInfo() const noexcept
+    ClassInfo classInfo() const
     { return manager->f_info(storage); }
 
     void constructor(void *value, std::true_type)
-- 
2.43.0


From 3d14387a505514ba23154bf49794222485e4d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 49/50] fix: base class was listed when it could not list the
 derived one

---
 src/metaclass.cpp         | 15 +++++++++++++--
 src/private/metaclass_p.h | 14 +++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 3ae7164..55d0ca3 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -117,9 +117,20 @@ void MetaClass::addBaseClass(MetaType_ID typeId, cast_func_t caster)
     if (!base)
         throw unregistered_metaclass{"Base class "s + type.typeName() + " not registered"};
 
+    // known from both ends or not at all
     auto d = d_func();
-    d->m_baseClasses.add(typeId, caster);
-    base->addDerivedClass(d->m_typeId);
+    std::lock_guard lock{internal::definition_mutex()};
+    auto added = d->m_baseClasses.add(typeId, caster);
+    try
+    {
+        base->addDerivedClass(d->m_typeId);
+    }
+    catch (...)
+    {
+        if (added)
+            d->m_baseClasses.removeLast();
+        throw;
+    }
 }
 
 void MetaClass::addDerivedClass(MetaType_ID typeId)
diff --git a/src/private/metaclass_p.h b/src/private/metaclass_p.h
index 680b95d..1bee5fe 100644
--- a/src/private/metaclass_p.h
+++ b/src/private/metaclass_p.h
@@ -52,11 +52,19 @@ namespace internal {
         using item_t      = std::pair<MetaType_ID, MetaClass::cast_func_t>;
         using container_t = std::vector<item_t>;
 
-        void add(MetaType_ID value, MetaClass::cast_func_t func)
+        bool add(MetaType_ID value, MetaClass::cast_func_t func)
         {
             std::unique_lock lock{m_lock};
-            if (!find_imp(value))
-                m_items.emplace_back(value, func);
+            if (find_imp(value))
+                return false;
+            m_items.emplace_back(value, func);
+            return true;
+        }
+
+        void removeLast()
+        {
+            std::unique_lock lock{m_lock};
+            m_items.pop_back();
         }
 
         std::size_t count() const
-- 
2.43.0


From aa7284f3efccb356dec9418007722748e8406050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 50/50] fix: pointers of more than sixteen levels ended the
 process when compared

---
 include/rtti/metatype.h    | 7 ++++---
 include/rtti/misc_traits.h | 2 +-
 src/metatype.cpp           | 6 +++---
 src/private/metatype_p.h   | 6 +++---
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 15c7ec1..64031b7 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -138,7 +138,7 @@ public:
     static void unregisterConverter();
 private:
     static MetaType_ID registerMetaType(std::string_view name, std::size_t size,
-        MetaType_ID decay, uint16_t arity, uint16_t const_mask,
+        MetaType_ID decay, uint16_t arity, uint64_t const_mask,
         TypeFlags flags, metatype_manager_t const *manager);
 
     void* allocate() const;
@@ -180,7 +180,7 @@ public:
     TypeInfo const* typeInfo(TypeInfoKey) const
     { return m_typeInfo; }
     static MetaType_ID registerMetaType(std::string_view name, std::size_t size,
-                                        MetaType_ID decay, uint16_t arity, uint16_t const_mask,
+                                        MetaType_ID decay, uint16_t arity, uint64_t const_mask,
                                         TypeFlags flags, metatype_manager_t const *manager,
                                         RegisterTypeKey)
     { return registerMetaType(name, size, decay, arity, const_mask, flags, manager); }
@@ -523,7 +523,8 @@ class meta_type final
         auto constexpr flags = type_flags<T>::value;
         auto constexpr size = size_of_v<T>;
         std::uint16_t constexpr arity = pointer_arity<NoRef>::value;
-        std::uint16_t constexpr const_mask = const_bitset<NoRef>::value;
+        static_assert(arity < 64, "Too many levels of pointers");
+        std::uint64_t constexpr const_mask = const_bitset<NoRef>::value;
         auto *manager = type_function_table_for<U>();
         meta_id = MetaType::registerMetaType(name, size, decay,
                                              arity, const_mask, flags,
diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index b1655fb..238fcdd 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -219,7 +219,7 @@ struct const_bitset_helper<T, I, false, true>:
 
 template<typename T, std::size_t I>
 struct const_bitset_helper<T, I, true, true>:
-    std::integral_constant<std::size_t, (1 << I) + const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
+    std::integral_constant<std::size_t, (std::size_t{1} << I) + const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
 {};
 
 } // namespace internal
diff --git a/src/metatype.cpp b/src/metatype.cpp
index a948e83..d3ab43a 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -28,7 +28,7 @@ public:
     inline TypeInfo const *getTypeInfo(MetaType_ID typeId) const;
     TypeInfo const *getTypeInfo(std::string_view name) const;
     TypeInfo const *addTypeInfo(std::string_view name, std::size_t size, MetaType_ID decay,
-                                std::uint16_t arity, std::uint16_t const_mask, TypeFlags flags,
+                                std::uint16_t arity, std::uint64_t const_mask, TypeFlags flags,
                                 metatype_manager_t const *manager);
 
 private:
@@ -75,7 +75,7 @@ TypeInfo const* CustomTypes::getTypeInfo(std::string_view name) const
 }
 
 TypeInfo const* CustomTypes::addTypeInfo(std::string_view name, std::size_t size, MetaType_ID decay,
-                                         uint16_t arity, uint16_t const_mask, TypeFlags flags,
+                                         uint16_t arity, uint64_t const_mask, TypeFlags flags,
                                          metatype_manager_t const *manager)
 {
     if (name.empty())
@@ -220,7 +220,7 @@ bool MetaType::compatible(MetaType fromType, MetaType toType) noexcept
 }
 
 MetaType_ID MetaType::registerMetaType(std::string_view name, std::size_t size, MetaType_ID decay,
-                                       std::uint16_t arity, std::uint16_t const_mask,
+                                       std::uint16_t arity, std::uint64_t const_mask,
                                        TypeFlags flags, metatype_manager_t const *manager)
 {
     auto *types = customTypes();
diff --git a/src/private/metatype_p.h b/src/private/metatype_p.h
index 7513347..26a2ab5 100644
--- a/src/private/metatype_p.h
+++ b/src/private/metatype_p.h
@@ -12,21 +12,21 @@ namespace rtti {
 
 struct RTTI_PRIVATE TypeInfo
 {
-    using const_bitset_t = std::bitset<16>;
+    using const_bitset_t = std::bitset<64>;
 
     // copied since types outlive the modules they are first used by
     std::string const name;
     std::size_t const size;
     MetaType_ID const decay;
     std::uint16_t const arity;
-    std::uint16_t const const_mask;
+    std::uint64_t const const_mask;
     TypeFlags const flags;
     metatype_manager_t const *manager;
 
     mutable std::atomic<MetaClass *> metaClass = nullptr;
 
     TypeInfo(std::string_view name, std::size_t size, MetaType_ID decay,
-             std::uint16_t arity, std::uint16_t const_mask, TypeFlags flags,
+             std::uint16_t arity, std::uint64_t const_mask, TypeFlags flags,
              metatype_manager_t const *manager)
         : name{name}
         , size{size}
-- 
2.43.0

