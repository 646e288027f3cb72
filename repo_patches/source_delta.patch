From 1a8353d23dda088732caafdc8b0b76e88f099e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 01/66] fix: small_vector: shrink_to_fit and revert_to_static
 use the static buffer when the size equals its capacity

revert_to_static returned true ("the vector is now static") while shrink_to_fit left the data dynamic.
---
 include/itlib/small_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 30992db..f6f7fc5 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -512,14 +512,14 @@ public:
     {
         const auto s = size();
 
-        if (s == m_capacity) return false; // we're at max
         if (is_static()) return false; // can't shrink static buf
+        if (s > StaticCapacity && s == m_capacity) return false; // we're at max
 
         auto old_begin = m_begin;
         auto old_end = m_end;
         auto old_cap = m_capacity;
 
-        if (s < StaticCapacity)
+        if (s <= StaticCapacity)
         {
             // revert to static capacity
             m_begin = m_end = static_begin_ptr();
-- 
2.43.0


From b73c1fe5bdf16d42e1fa71e49d046e5e43187fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 02/66] fix: small_vector: inserting or erasing zero elements
 doesn't touch the existing ones

insert(pos, 0, val) constructed each following element over itself and then destroyed it,
and erase(it, it) destroyed elements before moving from them.
---
 include/itlib/small_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index f6f7fc5..7ebeb08 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -762,6 +762,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
 
+        if (num == 0) return position; // nothing to splice
+
         const auto s = size();
         const auto cdr = choose_data(s + num);
 
@@ -825,6 +827,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end || position + num > m_end);
 
+        if (num == 0) return position; // nothing to erase
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 3cb811e35024349b577db8085ca6d783dcad443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:55 +0000
Subject: [PATCH 03/66] fix: small_vector: adding elements within the reserved
 capacity doesn't revert to the static buffer

After reserve(n) the first push_back of a vector with RevertToStaticBelow > 0 threw the reserved buffer away.
---
 include/itlib/small_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 7ebeb08..1d6698d 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -765,7 +765,8 @@ private:
         if (num == 0) return position; // nothing to splice
 
         const auto s = size();
-        const auto cdr = choose_data(s + num);
+        // never revert to static when growing: only reducing operations may do so
+        const auto cdr = s + num > m_capacity ? choose_data(s + num) : choose_data_result{m_begin, m_capacity};
 
         if (cdr.ptr == m_begin)
         {
-- 
2.43.0


From 8c23a789c32672e162c09643251a99c1a2583521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:55 +0000
Subject: [PATCH 04/66] fix: small_vector: max_size compiles

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 1d6698d..3d17646 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -466,7 +466,7 @@ public:
 
     size_t max_size() const noexcept
     {
-        return atraits::max_size();
+        return atraits::max_size(get_alloc());
     }
 
     void reserve(size_type new_cap)
-- 
2.43.0


From 0b5ef446465ff1f8cc2fe9a391592aae0c5152ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 05/66] fix: small_vector: elements of the vector itself can be
 inserted

push_back, emplace, insert and resize relocated the elements before using their argument, so an argument
which is an element of the vector was used after being destroyed. A throwing constructor of the new element
no longer leaves a hole.
---
 include/itlib/small_vector.hpp | 71 +++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 3d17646..a3792be 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -582,24 +582,21 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, val);
-        return pos;
+        return emplace_at(position, val);
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
-        return pos;
+        return emplace_at(position, std::move(val));
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        temp_value tmp(get_alloc(), val); // val may be an element of this vector
         auto pos = grow_at(position, count);
         for (size_type i = 0; i < count; ++i)
         {
-            atraits::construct(get_alloc(), pos + i, val);
+            atraits::construct(get_alloc(), pos + i, tmp.get());
         }
         return pos;
     }
@@ -631,9 +628,7 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return pos;
+        return emplace_at(position, std::forward<Args>(args)...);
     }
 
     iterator erase(const_iterator position)
@@ -649,22 +644,18 @@ public:
 
     void push_back(const_reference val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, val);
+        emplace_at(m_end, val);
     }
 
     void push_back(T&& val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        emplace_at(m_end, std::move(val));
     }
 
     template<typename... Args>
     reference emplace_back(Args&&... args)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return *pos;
+        return *emplace_at(m_end, std::forward<Args>(args)...);
     }
 
     void pop_back()
@@ -674,7 +665,13 @@ public:
 
     void resize(size_type n, const value_type& v)
     {
-        reserve(n);
+        if (n > m_capacity)
+        {
+            temp_value tmp(get_alloc(), v); // v may be an element of this vector
+            reserve(n);
+            resize(n, tmp.get());
+            return;
+        }
 
         auto new_end = m_begin + n;
 
@@ -753,6 +750,44 @@ private:
         v.m_capacity = StaticCapacity;
     }
 
+    // a value which outlives the relocation of the elements
+    struct temp_value
+    {
+        template <typename... Args>
+        explicit temp_value(allocator_type& a, Args&&... args)
+            : m_alloc(a)
+        {
+            atraits::construct(m_alloc, ptr(), std::forward<Args>(args)...);
+        }
+        ~temp_value() { atraits::destroy(m_alloc, ptr()); }
+
+        temp_value(const temp_value&) = delete;
+        temp_value& operator=(const temp_value&) = delete;
+
+        T& get() { return *ptr(); }
+    private:
+        T* ptr() { return reinterpret_cast<T*>(&m_data); }
+        allocator_type& m_alloc;
+        typename std::aligned_storage<sizeof(T), std::alignment_of<T>::value>::type m_data;
+    };
+
+    template <typename... Args>
+    T* emplace_at(const T* position, Args&&... args)
+    {
+        if (position == m_end && size() < m_capacity)
+        {
+            // no elements are relocated
+            atraits::construct(get_alloc(), m_end, std::forward<Args>(args)...);
+            return m_end++;
+        }
+
+        // create the value first: the args may refer to elements of this vector
+        temp_value tmp(get_alloc(), std::forward<Args>(args)...);
+        auto pos = grow_at(position, 1);
+        atraits::construct(get_alloc(), pos, std::move(tmp.get()));
+        return pos;
+    }
+
     // increase the size by splicing the elements in such a way that
     // a hole of uninitialized elements is left at position, with size num
     // returns the (potentially new) address of the hole
-- 
2.43.0


From 1c39f52347221727426091cfa0d444b26c3934a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 06/66] fix: small_vector: exceptions from elements or the
 allocator in assign, copy and resize leave it valid

The end of the range was not in step with the living elements, so they were destroyed twice or leaked.
---
 include/itlib/small_vector.hpp | 43 ++++++++++++++--------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index a3792be..37a6df9 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -682,7 +682,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++, v);
+            atraits::construct(get_alloc(), m_end, v);
+            ++m_end;
         }
     }
 
@@ -699,7 +700,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++);
+            atraits::construct(get_alloc(), m_end);
+            ++m_end;
         }
     }
 
@@ -725,6 +727,7 @@ private:
         {
             atraits::destroy(get_alloc(), p);
         }
+        m_end = m_begin;
     }
 
     void take_impl(small_vector& v)
@@ -931,20 +934,12 @@ private:
     {
         const auto cdr = choose_data(count);
 
-        m_end = cdr.ptr;
+        take_data(cdr);
         for (size_t i=0; i<count; ++i)
         {
             atraits::construct(get_alloc(), m_end, value);
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
     template <class InputIterator>
@@ -952,20 +947,12 @@ private:
     {
         const auto cdr = choose_data(last - first);
 
-        m_end = cdr.ptr;
+        take_data(cdr);
         for (auto p = first; p != last; ++p)
         {
             atraits::construct(get_alloc(), m_end, *p);
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
     template <class InputIterator>
@@ -973,26 +960,30 @@ private:
     {
         const auto cdr = choose_data(last - first);
 
-        m_end = cdr.ptr;
+        take_data(cdr);
         for (auto p = first; p != last; ++p)
         {
             atraits::construct(get_alloc(), m_end, std::move(*p));
             ++m_end;
         }
+    }
 
+    struct choose_data_result {
+        T* ptr;
+        size_t cap;
+    };
+    // replace the buffer of an empty vector
+    void take_data(const choose_data_result& cdr)
+    {
         if (!is_static() && m_begin != cdr.ptr)
         {
             atraits::deallocate(get_alloc(), m_begin, m_capacity);
         }
 
-        m_begin = cdr.ptr;
+        m_begin = m_end = cdr.ptr;
         m_capacity = cdr.cap;
     }
 
-    struct choose_data_result {
-        T* ptr;
-        size_t cap;
-    };
     choose_data_result choose_data(size_t desired_capacity)
     {
         choose_data_result ret = {m_begin, m_capacity};
-- 
2.43.0


From b970358104642c49a476537c0bcfbd7129a172d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 07/66] fix: small_vector: elements which throw when moved or
 copied into place don't corrupt the vector

An exception during insert, growth, erase or shrink_to_fit left a hole of destroyed or never
constructed elements inside the vector, or leaked the new buffer.
---
 include/itlib/small_vector.hpp | 241 +++++++++++++++++++--------------
 1 file changed, 143 insertions(+), 98 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 37a6df9..5355dc0 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -478,29 +478,7 @@ public:
         assert(cdr.ptr != m_begin); // should've been handled by new_cap <= m_capacity
         assert(cdr.ptr != static_begin_ptr()); // we should never reserve into static memory
 
-        auto s = size();
-
-        // now we need to transfer the existing elements into the new buffer
-        for (size_type i = 0; i < s; ++i)
-        {
-            atraits::construct(get_alloc(), cdr.ptr + i, std::move(*(m_begin + i)));
-        }
-
-        // free old elements
-        for (size_type i = 0; i < s; ++i)
-        {
-            atraits::destroy(get_alloc(), m_begin + i);
-        }
-
-        if (!is_static())
-        {
-            // we've moved from dyn to dyn memory, so deallocate the old one
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_end = m_begin + s;
-        m_capacity = cdr.cap;
+        transfer_to(cdr);
     }
 
     size_t capacity() const noexcept
@@ -515,31 +493,17 @@ public:
         if (is_static()) return false; // can't shrink static buf
         if (s > StaticCapacity && s == m_capacity) return false; // we're at max
 
-        auto old_begin = m_begin;
-        auto old_end = m_end;
-        auto old_cap = m_capacity;
-
         if (s <= StaticCapacity)
         {
             // revert to static capacity
-            m_begin = m_end = static_begin_ptr();
-            m_capacity = StaticCapacity;
+            transfer_to({static_begin_ptr(), StaticCapacity});
         }
         else
         {
             // alloc new smaller buffer
-            m_begin = m_end = atraits::allocate(get_alloc(), s);
-            m_capacity = s;
-        }
-
-        for (auto p = old_begin; p != old_end; ++p)
-        {
-            atraits::construct(get_alloc(), m_end, std::move(*p));
-            ++m_end;
-            atraits::destroy(get_alloc(), p);
+            transfer_to({atraits::allocate(get_alloc(), s), s});
         }
 
-        atraits::deallocate(get_alloc(), old_begin, old_cap);
         return true;
     }
 
@@ -594,10 +558,12 @@ public:
     {
         temp_value tmp(get_alloc(), val); // val may be an element of this vector
         auto pos = grow_at(position, count);
+        hole_filler hole(*this, pos, count);
         for (size_type i = 0; i < count; ++i)
         {
-            atraits::construct(get_alloc(), pos + i, tmp.get());
+            hole.construct_next(tmp.get());
         }
+        hole.complete();
         return pos;
     }
 
@@ -605,23 +571,24 @@ public:
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
         auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler hole(*this, pos, last - first);
+        for (auto p = first; p != last; ++p)
         {
-            atraits::construct(get_alloc(), np, *p);
+            hole.construct_next(*p);
         }
+        hole.complete();
         return pos;
     }
 
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
         auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler hole(*this, pos, ilist.size());
         for (auto& elem : ilist)
         {
-            atraits::construct(get_alloc(), pos + i, std::move(elem));
-            ++i;
+            hole.construct_next(std::move(elem));
         }
+        hole.complete();
         return pos;
     }
 
@@ -787,10 +754,81 @@ private:
         // create the value first: the args may refer to elements of this vector
         temp_value tmp(get_alloc(), std::forward<Args>(args)...);
         auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::move(tmp.get()));
+        hole_filler hole(*this, pos, 1);
+        hole.construct_next(std::move(tmp.get()));
+        hole.complete();
         return pos;
     }
 
+    // if an exception is thrown while elements are relocated, these guards
+    // destroy the elements which don't end up in the vector ...
+    struct range_guard
+    {
+        range_guard(small_vector& vec, T* begin, T* end) : v(vec), first(begin), last(end) {}
+        ~range_guard()
+        {
+            for (; first != last; ++first)
+            {
+                atraits::destroy(v.get_alloc(), first);
+            }
+        }
+
+        range_guard(const range_guard&) = delete;
+        range_guard& operator=(const range_guard&) = delete;
+
+        void release() { first = last; }
+
+        small_vector& v;
+        T* first;
+        T* last;
+    };
+
+    // ... and free the buffer which was allocated for them
+    struct buffer_guard
+    {
+        buffer_guard(small_vector& vec, T* buf, size_t buf_cap) : v(vec), ptr(buf), cap(buf_cap) {}
+        ~buffer_guard()
+        {
+            if (ptr && ptr != v.static_begin_ptr())
+            {
+                atraits::deallocate(v.get_alloc(), ptr, cap);
+            }
+        }
+
+        buffer_guard(const buffer_guard&) = delete;
+        buffer_guard& operator=(const buffer_guard&) = delete;
+
+        void release() { ptr = nullptr; }
+
+        small_vector& v;
+        T* ptr;
+        size_t cap;
+    };
+
+    // fills the hole left by grow_at
+    // until it's complete the vector ends with the last constructed element of the hole
+    struct hole_filler : private range_guard
+    {
+        hole_filler(small_vector& vec, T* pos, size_t num)
+            : range_guard(vec, pos + num, vec.m_end)
+        {
+            vec.m_end = pos;
+        }
+
+        template <typename... Args>
+        void construct_next(Args&&... args)
+        {
+            atraits::construct(this->v.get_alloc(), this->v.m_end, std::forward<Args>(args)...);
+            ++this->v.m_end;
+        }
+
+        void complete()
+        {
+            this->v.m_end = this->last;
+            this->release();
+        }
+    };
+
     // increase the size by splicing the elements in such a way that
     // a hole of uninitialized elements is left at position, with size num
     // returns the (potentially new) address of the hole
@@ -810,14 +848,18 @@ private:
         {
             // no special transfers needed
 
-            m_end = m_begin + s + num;
+            range_guard moved(*this, m_end + num, m_end + num);
 
-            for (auto p = m_end - num - 1; p >= position; --p)
+            while (m_end != position)
             {
-                atraits::construct(get_alloc(), p + num, std::move(*p));
-                atraits::destroy(get_alloc(), p);
+                atraits::construct(get_alloc(), moved.first - 1, std::move(*(m_end - 1)));
+                --moved.first;
+                atraits::destroy(get_alloc(), --m_end);
             }
 
+            moved.release();
+            m_end = m_begin + s + num;
+
             return position;
         }
         else
@@ -826,35 +868,29 @@ private:
 
             position = cdr.ptr + (position - m_begin);
 
-            auto p = m_begin;
-            auto np = cdr.ptr;
+            buffer_guard buffer(*this, cdr.ptr, cdr.cap);
+            range_guard before(*this, cdr.ptr, cdr.ptr);
+            range_guard after(*this, position + num, position + num); // after the hole
 
-            for (; np != position; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-            }
+            auto p = m_begin;
 
-            np += num; // hole
-            for (; p != m_end; ++p, ++np)
+            for (; before.last != position; ++p, ++before.last)
             {
-                atraits::construct(get_alloc(), np, std::move(*p));
+                atraits::construct(get_alloc(), before.last, std::move(*p));
             }
 
-            // destroy old
-            for (p = m_begin; p != m_end; ++p)
+            for (; p != m_end; ++p, ++after.last)
             {
-                atraits::destroy(get_alloc(), p);
+                atraits::construct(get_alloc(), after.last, std::move(*p));
             }
 
-            if (!is_static())
-            {
-                // we've moved from dyn memory, so deallocate the old one
-                atraits::deallocate(get_alloc(), m_begin, m_capacity);
-            }
+            before.release();
+            after.release();
+            buffer.release();
 
-            m_begin = cdr.ptr;
+            destroy_all();
+            take_data(cdr);
             m_end = m_begin + s + num;
-            m_capacity = cdr.cap;
 
             return position;
         }
@@ -881,18 +917,15 @@ private:
         {
             // no special transfers needed
 
-            for (auto p = position, np = position + num; np != m_end; ++p, ++np)
-            {
-                atraits::destroy(get_alloc(), p);
-                atraits::construct(get_alloc(), p, std::move(*np));
-            }
+            range_guard rest(*this, position, m_end);
+            m_end = position;
 
-            for (auto p = m_end - num; p != m_end; ++p)
+            for (auto np = position + num; np != rest.last; ++np)
             {
-                atraits::destroy(get_alloc(), p);
+                atraits::destroy(get_alloc(), rest.first++);
+                atraits::construct(get_alloc(), m_end, std::move(*np));
+                ++m_end;
             }
-
-            m_end -= num;
         }
         else
         {
@@ -900,31 +933,22 @@ private:
 
             assert(cdr.ptr == static_begin_ptr()); // since we're shrinking that's the only way to have a new buffer
 
-            auto p = m_begin, np = cdr.ptr;
-            for (; p != position; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-                atraits::destroy(get_alloc(), p);
-            }
+            range_guard moved(*this, cdr.ptr, cdr.ptr);
 
-            for (; p != position + num; ++p)
+            for (auto p = m_begin; p != m_end; ++p)
             {
-                atraits::destroy(get_alloc(), p);
+                if (p == position) p += num;
+                if (p == m_end) break;
+                atraits::construct(get_alloc(), moved.last, std::move(*p));
+                ++moved.last;
             }
 
-            for (; np != cdr.ptr + s - num; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-                atraits::destroy(get_alloc(), p);
-            }
-
-            // we've moved from dyn memory, so deallocate the old one
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
+            moved.release();
 
             position = cdr.ptr + (position - m_begin);
-            m_begin = cdr.ptr;
-            m_end = np;
-            m_capacity = StaticCapacity;
+            destroy_all();
+            take_data(cdr);
+            m_end = m_begin + s - num;
         }
 
         return position;
@@ -972,6 +996,27 @@ private:
         T* ptr;
         size_t cap;
     };
+
+    // move the elements to a new buffer
+    void transfer_to(const choose_data_result& cdr)
+    {
+        buffer_guard buffer(*this, cdr.ptr, cdr.cap);
+        range_guard moved(*this, cdr.ptr, cdr.ptr);
+
+        for (auto p = m_begin; p != m_end; ++p, ++moved.last)
+        {
+            atraits::construct(get_alloc(), moved.last, std::move(*p));
+        }
+
+        moved.release();
+        buffer.release();
+
+        const auto s = size();
+        destroy_all();
+        take_data(cdr);
+        m_end = m_begin + s;
+    }
+
     // replace the buffer of an empty vector
     void take_data(const choose_data_result& cdr)
     {
-- 
2.43.0


From 88f31ecefffbe83c64ffc6f53195f919e980de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 08/66] fix: static_vector: erasing an empty range doesn't
 touch the existing elements

erase(it, it) destroyed each following element before moving from it.
---
 include/itlib/static_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf36868..2b9ab2b 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -644,6 +644,7 @@ private:
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
+        if (num == 0) return position;
 
         const auto s = size();
         if (s - num == 0)
-- 
2.43.0


From 8d21053eebb43ca01165e4956a7680ff226c2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 09/66] fix: static_vector: inserting a huge count is out of
 range and doesn't wrap around the capacity check

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 2b9ab2b..a532ab2 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -622,7 +622,7 @@ private:
     }
 
     T* grow_at(const T* cp, size_t by) {
-        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() + by > Capacity);
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From ba65870f38efff1ec1260e2d663bed91c4cc1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 10/66] fix: static_vector: inserting own elements and elements
 which throw

insert and emplace relocated the elements before using an argument which may be one of them,
and exceptions from elements left holes or lost elements in the vector or leaked them from constructors.
---
 include/itlib/static_vector.hpp | 129 ++++++++++++++++++++++++--------
 1 file changed, 98 insertions(+), 31 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index a532ab2..53391c6 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -184,28 +184,34 @@ public:
 
     static_vector(allocator_type) {}
 
+    // constructors delegate so that the elements are destroyed if constructing one of them throws
     explicit static_vector(size_t count, allocator_type = {})
+        : static_vector()
     {
         resize(count);
     }
 
     static_vector(size_t count, const T& value, allocator_type = {})
+        : static_vector()
     {
         assign_impl_val(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     static_vector(InputIterator first, InputIterator last, allocator_type = {})
+        : static_vector()
     {
         assign_impl_iter(first, last);
     }
 
     static_vector(std::initializer_list<T> l, allocator_type = {})
+        : static_vector()
     {
         assign_impl_ilist(l);
     }
 
     static_vector(const static_vector& v)
+        : static_vector()
     {
         for (const auto& i : v)
         {
@@ -215,6 +221,7 @@ public:
 
     template <size_t CapacityB>
     static_vector(const static_vector<T, CapacityB>& v)
+        : static_vector()
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);
 
@@ -225,6 +232,7 @@ public:
     }
 
     static_vector(static_vector&& v) noexcept(std::is_nothrow_move_constructible<T>::value)
+        : static_vector()
     {
         for (auto i = v.begin(); i != v.end(); ++i)
         {
@@ -463,25 +471,25 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(val);
-        return pos;
+        return emplace(position, val);
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::move(val));
-        return pos;
+        return emplace(position, std::move(val));
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(count > Capacity - size());
+        T tmp(val); // val may be an element of this vector
         auto pos = grow_at(position, count);
+        hole_filler hole(*this, pos, count);
         for (size_type i = 0; i < count; ++i)
         {
-            ::new (pos + i) T(val);
+            hole.construct_next(tmp);
         }
+        hole.complete();
         return pos;
     }
 
@@ -489,31 +497,36 @@ public:
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
         auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler hole(*this, pos, last - first);
+        for (auto p = first; p != last; ++p)
         {
-            ::new (np) T(*p);
+            hole.construct_next(*p);
         }
+        hole.complete();
         return pos;
     }
 
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
         auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler hole(*this, pos, ilist.size());
         for (auto& elem : ilist)
         {
-            ::new (pos + i) T(std::move(elem));
-            ++i;
+            hole.construct_next(std::move(elem));
         }
+        hole.complete();
         return pos;
     }
 
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() >= Capacity);
+        T tmp(std::forward<Args>(args)...); // args may refer to elements of this vector
         auto pos = grow_at(position, 1);
-        ::new (pos) T(std::forward<Args>(args)...);
+        hole_filler hole(*this, pos, 1);
+        hole.construct_next(std::move(tmp));
+        hole.complete();
         return pos;
     }
 
@@ -578,14 +591,14 @@ public:
             std::swap(shorter->at(i), longer->at(i));
         }
 
-        auto short_size = shorter->m_size;
+        const auto short_size = shorter->m_size;
 
-        for (size_t i = shorter->size(); i < longer->size(); ++i)
+        for (size_t i = short_size; i < longer->size(); ++i)
         {
             shorter->emplace_back(std::move(longer->at(i)));
-            longer->at(i).~T();
         }
 
+        range_guard moved(longer->begin() + short_size, longer->end());
         longer->m_size = short_size;
     }
 
@@ -621,6 +634,57 @@ private:
         }
     }
 
+    // destroys the elements of a range which don't end up in the vector
+    // (because they are erased or because an exception is thrown while they are relocated)
+    struct range_guard
+    {
+        range_guard(T* begin, T* end) : first(begin), last(end) {}
+        ~range_guard()
+        {
+            for (; first != last; ++first)
+            {
+                first->~T();
+            }
+        }
+
+        range_guard(const range_guard&) = delete;
+        range_guard& operator=(const range_guard&) = delete;
+
+        void release() { first = last; }
+
+        T* first;
+        T* last;
+    };
+
+    // fills the hole left by grow_at
+    // until it's complete the vector ends with the last constructed element of the hole
+    struct hole_filler : private range_guard
+    {
+        hole_filler(static_vector& vec, T* pos, size_t num)
+            : range_guard(pos + num, vec.end())
+            , v(vec)
+        {
+            v.m_size = pos - v.begin();
+        }
+
+        template <typename... Args>
+        void construct_next(Args&&... args)
+        {
+            ::new (v.end()) T(std::forward<Args>(args)...);
+            ++v.m_size;
+        }
+
+        void complete()
+        {
+            v.m_size = this->last - v.begin();
+            this->release();
+        }
+
+    private:
+        static_vector& v;
+    };
+
+    // leave a hole of uninitialized elements at position
     T* grow_at(const T* cp, size_t by) {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
@@ -628,12 +692,19 @@ private:
         auto position = const_cast<T*>(cp);
         if (by == 0) return position;
 
-        for (auto p = end() - 1; p >= position; --p)
+        const auto new_size = m_size + by;
+        range_guard moved(end() + by, end() + by);
+
+        while (end() != position)
         {
-            ::new (p + by) T(std::move(*p));
-            p->~T();
+            ::new (moved.first - 1) T(std::move(*(end() - 1)));
+            --moved.first;
+            (end() - 1)->~T();
+            --m_size;
         }
-        m_size += by;
+
+        moved.release();
+        m_size = new_size;
 
         return position;
     }
@@ -653,20 +724,16 @@ private:
             return begin();
         }
 
-        const auto myend = end();
-        for (auto p = position, np = position + num; np != myend; ++p, ++np)
-        {
-            p->~T();
-            ::new (p) T(std::move(*np));
-        }
+        range_guard rest(position, end());
+        m_size = position - begin();
 
-        for (auto p = myend - num; p != myend; ++p)
+        for (auto np = position + num; np != rest.last; ++np)
         {
-            p->~T();
+            (rest.first++)->~T();
+            ::new (end()) T(std::move(*np));
+            ++m_size;
         }
 
-        m_size -= num;
-
         return position;
     }
 
-- 
2.43.0


From 690e95d48cb5c8471fda36298117b3c6085e8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 11/66] fix: pod_vector: resize with a value fills only the new
 elements

It wrote n elements after the end, whatever the size was.
---
 include/itlib/pod_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index bfe8674..ae79e97 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -607,7 +607,7 @@ public:
     bool resize(size_type n, const value_type& val)
     {
         bool ret = reserve(n);
-        fill(m_end, n, val);
+        if (n > size()) fill(m_end, n - size(), val);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From 3685edfe6bd8b76b8a27f6caf54cc26feabb5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 12/66] fix: pod_vector: elements of the vector itself can be
 inserted

push_back, emplace_back, insert, emplace and resize read the value after it was freed or shifted.
---
 include/itlib/pod_vector.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index ae79e97..6827710 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -537,15 +537,17 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         auto pos = grow_at(position, 1);
-        *pos = val;
+        *pos = copy;
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         auto pos = grow_at(position, count);
-        fill(pos, count, val);
+        fill(pos, count, copy);
         return pos;
     }
 
@@ -590,7 +592,8 @@ public:
 
     reference push_back(const_reference val)
     {
-        return emplace_back() = val;
+        const value_type copy = val; // val may be an element of this vector
+        return emplace_back() = copy;
     }
 
     // for compatibility
@@ -606,8 +609,9 @@ public:
 
     bool resize(size_type n, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         bool ret = reserve(n);
-        if (n > size()) fill(m_end, n - size(), val);
+        if (n > size()) fill(m_end, n - size(), copy);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From 12afea00ee3f6c01d2a67863a93e14cee7140c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 13/66] fix: pod_vector: recast_take_from to a more aligned
 type yields aligned data

Buffers of types which are more aligned than the allocator are only aligned for the source's type.
---
 include/itlib/pod_vector.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 6827710..ecd7555 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -281,6 +281,17 @@ public:
         // it this line does not compile, you need to ensure allocator compatibility for it
         get_alloc() = std::move(other.get_alloc());
 
+        if (reinterpret_cast<uintptr_t>(m_begin) % alignof(T) != 0)
+        {
+            // the buffer is only aligned for U, so we must use another one
+            auto old_buf = other.real_addr(m_begin);
+            auto new_buf = pointer(a_malloc(m_capacity));
+            if (new_size) std::memcpy(new_buf, other.m_begin, e2b(new_size));
+            Alloc::free(old_buf);
+            m_begin = new_buf;
+            m_end = m_begin + new_size;
+        }
+
         other.m_begin = other.m_end = nullptr;
         other.m_capacity = 0;
     }
-- 
2.43.0


From afb823e723f49fdefce5b328fc16db989c018589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 14/66] fix: pod_vector: recast_copy_from doesn't read through
 misaligned pointers

Copying through const T* lets the compiler assume that data of a less aligned type is aligned for T.
---
 include/itlib/pod_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index ecd7555..c57b753 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -259,8 +259,10 @@ public:
     {
         clear();
         auto new_size = other.byte_size() / sizeof(T);
-        auto cast = reinterpret_cast<const T*>(other.data());
-        assign_copy(cast, cast + new_size);
+        safe_grow(new_size);
+        // the data of other may not be aligned for T
+        if (new_size) std::memcpy(m_begin, other.data(), e2b(new_size));
+        m_end = m_begin + new_size;
     }
 
     template <typename U, typename UAlloc>
-- 
2.43.0


From 4ad34a48fc8d4a0339a50e281765b88589d68332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 15/66] fix: pod_vector: expanding a buffer recast from a more
 aligned type accounts for its offset

The in-place expanded buffer was smaller than the capacity.
---
 include/itlib/pod_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index c57b753..79e9173 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -888,7 +888,9 @@ private:
         else
         {
             auto ptr = real_addr(m_begin);
-            if (!Alloc::expand(ptr, e2b(num_elements) + alignof(value_type))) return false;
+            // the buffer may be recast from one of a more aligned type, so the offset may exceed our alignment
+            auto offset = size_type(reinterpret_cast<uint8_t*>(m_begin) - reinterpret_cast<uint8_t*>(ptr));
+            if (!Alloc::expand(ptr, e2b(num_elements) + offset)) return false;
         }
 
         m_capacity = num_elements;
-- 
2.43.0


From 26069b7cc84f7f5999d53656eab3132da34a0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 16/66] fix: dynamic_bitset: all works with words smaller than
 int

~word_type(0) is promoted to int and never equals a word.
---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ee84748..a08d950 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -199,7 +199,7 @@ public:
         auto endit = it + m_size / bits_per_word;
         for (; it != endit; ++it)
         {
-            if (*it != ~word_type(0)) return false;
+            if (*it != word_type(~word_type(0))) return false; // cast because of integer promotion
         }
         if (endit != m_buf.end())
         {
-- 
2.43.0


From 12bb1a1935ec1736441e49a0af8ee97dc008e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 17/66] fix: dynamic_bitset: copy copies trailing bits which
 span two words of the source

They were zeroed instead.
---
 include/itlib/dynamic_bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index a08d950..5461bf7 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -400,7 +400,13 @@ public:
 
         // now what remains is some bits from source that need to be splicet onto our last element
         const auto rpad = to.index % bits_per_word;
-        m_buf[own_windex] = ((src[src_windex] >> pad) & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
+        word_type last = src[src_windex] >> pad;
+        if (pad + rpad > bits_per_word)
+        {
+            // the remaining bits span two words of the source
+            last |= src[src_windex + 1] << (bits_per_word - pad);
+        }
+        m_buf[own_windex] = (last & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
     }
 
     // static ops
-- 
2.43.0


From 4ec3cc4ccb79730d951e634ea473a583546ec778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 18/66] fix: expected: move-assigning a void value to a void
 value doesn't touch the error

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 3685445..878867a 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -446,7 +446,7 @@ public:
             m_has_value = true;
             m_error.~E();
         }
-        else
+        else if (!m_has_value)
         {
             m_error = std::move(other.m_error);
         }
-- 
2.43.0


From b00ce73cdafb10237b67154276976ac3b8d53141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 19/66] fix: expected: unexpected from an lvalue doesn't move
 from it

---
 include/itlib/expected.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 878867a..c9b3980 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -183,7 +183,7 @@ public:
     expected(T&& t) : m_value(std::forward<T>(t)), m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
@@ -316,7 +316,7 @@ public:
     expected(T& t) : m_value(&t) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::move(u.m_error)) {}
+    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
 
     expected(unexpected_t<void>) : m_value(nullptr), m_error() {}
 
@@ -416,7 +416,7 @@ public:
     expected() : m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
-- 
2.43.0


From 49b7c8fabf5087985ee0f97fe4f37a62d1ed827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 20/66] fix: expected: copy-assigning a value which throws
 leaves no value

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index c9b3980..2e6bb0d 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -528,8 +528,8 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
-            m_has_value = true;
             ::new (&m_value) T(other.m_value);
+            m_has_value = true;
         }
         return *this;
     }
-- 
2.43.0


From 861054f98a71de808961afddc04b781fe2107e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 21/66] fix: expected: value_or doesn't convert the value to a
 common type with the alternative

---
 include/itlib/expected.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 2e6bb0d..5211edb 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -271,9 +271,9 @@ public:
     T&& operator*() && { return std::move(value()); }
 
     template <typename U>
-    T value_or(U&& v) const & { return has_value() ? value() : std::forward<U>(v); }
+    T value_or(U&& v) const & { return has_value() ? value() : static_cast<T>(std::forward<U>(v)); }
     template <typename U>
-    T value_or(U&& v) && { return has_value() ? std::move(value()) : std::forward<U>(v); }
+    T value_or(U&& v) && { return has_value() ? std::move(value()) : static_cast<T>(std::forward<U>(v)); }
 
     T* operator->() { return &value(); }
     const T* operator->() const { return &value(); }
@@ -614,9 +614,9 @@ public:
     T&& operator*()&& { return std::move(value()); }
 
     template <typename U>
-    T value_or(U&& v) const& { return has_value() ? value() : std::forward<U>(v); }
+    T value_or(U&& v) const& { return has_value() ? value() : static_cast<T>(std::forward<U>(v)); }
     template <typename U>
-    T value_or(U&& v)&& { return has_value() ? std::move(value()) : std::forward<U>(v); }
+    T value_or(U&& v)&& { return has_value() ? std::move(value()) : static_cast<T>(std::forward<U>(v)); }
 
     T* operator->() { return &value(); }
     const T* operator->() const { return &value(); }
-- 
2.43.0


From cb98a4462b9fad94d138561c51a23ca659278545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 22/66] fix: any: values are stored as their decayed type, not
 as references to the argument

---
 include/itlib/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 90994d3..41761ec 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -173,15 +173,15 @@ public:
     // only enable these if T is not another any
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(std::allocator_arg_t, const Alloc& a, T&& t) : Alloc(a) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From 7a255d35620baaef77cd907298c7a422e5c9a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 23/66] fix: any: assigning an any or a part of its value to
 itself doesn't read destroyed objects

---
 include/itlib/any.hpp | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 41761ec..fad7851 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -154,9 +154,10 @@ public:
     }
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
-        reset();
-        m_block = o.m_block;
+        auto block = o.m_block; // o may be a part of the current value
         o.m_block = nullptr;
+        reset();
+        m_block = block;
         return *this;
     }
 
@@ -181,7 +182,9 @@ public:
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<typename std::decay<T>::type>(std::forward<T>(t));
+        // t may be a part of the current value
+        any copy(std::allocator_arg, get_allocator(), std::forward<T>(t));
+        std::swap(m_block, copy.m_block);
         return *this;
     }
 
@@ -235,18 +238,9 @@ public:
 
     template <typename OAlloc>
     void copy_from(const any<OAlloc>& o) {
-        reset();
-        if (!o.has_value()) return;
-        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(o.m_block->size, o.m_block->alignment));
-        try {
-            o.m_block->clone_to(m_block);
-            m_block->size = o.m_block->size;
-            m_block->alignment = o.m_block->alignment;
-        }
-        catch (...) {
-            free_block(o.m_block->size, o.m_block->alignment);
-            throw;
-        }
+        any copy(std::allocator_arg, get_allocator()); // o may be *this or a part of the current value
+        if (o.has_value()) copy.clone_block(*o.m_block);
+        std::swap(m_block, copy.m_block);
     }
 
     const std::type_info& type() const noexcept {
@@ -255,6 +249,19 @@ public:
     }
 
 private:
+    void clone_block(const anyimpl::obj_block& b) {
+        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(b.size, b.alignment));
+        try {
+            b.clone_to(m_block);
+            m_block->size = b.size;
+            m_block->alignment = b.alignment;
+        }
+        catch (...) {
+            free_block(b.size, b.alignment);
+            throw;
+        }
+    }
+
     void free_block(size_t size, size_t alignment) noexcept {
         Alloc::deallocate_bytes(m_block, size, alignment);
         m_block = nullptr;
-- 
2.43.0


From d9164b938f1833d1c0381fbe78e0523599278990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 24/66] fix: any: copying from an any with another allocator
 compiles

---
 include/itlib/any.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index fad7851..3723d1a 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -142,6 +142,9 @@ struct is_any<any<Alloc>> : public std::true_type {};
 template <typename Alloc = anyimpl::default_allocator>
 class any : private /*EBO*/ Alloc {
     anyimpl::obj_block* m_block = nullptr;
+
+    template <typename OAlloc>
+    friend class any;
 public:
     using allocator_type = Alloc;
 
-- 
2.43.0


From e66cf492767c6de5426edb735d0fc4f01050fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 25/66] fix: any, pmr_allocator: the headers can be included
 more than once

---
 include/itlib/any.hpp           | 2 ++
 include/itlib/pmr_allocator.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 3723d1a..9779ef1 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -50,6 +50,8 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <new>
 #include <cstdint>
 #include <cstdlib>
diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 33efd0f..99beccd 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -46,6 +46,8 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <memory_resource>
 #include <cstddef>
 
-- 
2.43.0


From 1862f082d1fb27e8d215fff5b6c3c6e42e4a1084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 26/66] fix: any: move assignment between different allocators
 doesn't mix up their memory

---
 include/itlib/any.hpp | 49 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 9779ef1..553ff9e 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -96,6 +96,8 @@ struct obj_block {
 
     virtual void clone_to(obj_block* buf) const = 0;
 
+    virtual void move_to(obj_block* buf) = 0;
+
     virtual const std::type_info& type() const noexcept = 0;
 };
 
@@ -128,6 +130,20 @@ struct obj_block_for final : public obj_block {
         do_clone_to<>(buf);
     }
 
+    template <typename U = T, typename std::enable_if<!std::is_move_constructible<U>::value, int>::type = 0>
+    [[noreturn]] void do_move_to(obj_block*) {
+        throw std::bad_cast();
+    }
+
+    template <typename U = T, typename std::enable_if<std::is_move_constructible<U>::value, int>::type = 0>
+    void do_move_to(obj_block* buf) {
+        new (buf) obj_block_for(std::move(m_data));
+    }
+
+    virtual void move_to(obj_block* buf) override {
+        do_move_to<>(buf);
+    }
+
     virtual const std::type_info& type() const noexcept override {
         return typeid(T);
     }
@@ -157,8 +173,16 @@ public:
     any(any&& o) noexcept : Alloc(o), m_block(o.m_block) {
         o.m_block = nullptr;
     }
-    any& operator=(any&& o) noexcept {
+    any& operator=(any&& o) noexcept(std::is_empty<Alloc>::value) {
         if (&o == this) return *this; // prevent self usurp
+        if (!has_same_allocator(o, std::is_empty<Alloc>{})) {
+            // can't take the block: move the value
+            any copy(std::allocator_arg, get_allocator());
+            if (o.m_block) copy.make_block(*o.m_block, [&o](anyimpl::obj_block* b) { o.m_block->move_to(b); });
+            o.reset();
+            std::swap(m_block, copy.m_block);
+            return *this;
+        }
         auto block = o.m_block; // o may be a part of the current value
         o.m_block = nullptr;
         reset();
@@ -244,7 +268,7 @@ public:
     template <typename OAlloc>
     void copy_from(const any<OAlloc>& o) {
         any copy(std::allocator_arg, get_allocator()); // o may be *this or a part of the current value
-        if (o.has_value()) copy.clone_block(*o.m_block);
+        if (o.has_value()) copy.make_block(*o.m_block, [&o](anyimpl::obj_block* b) { o.m_block->clone_to(b); });
         std::swap(m_block, copy.m_block);
     }
 
@@ -254,15 +278,24 @@ public:
     }
 
 private:
-    void clone_block(const anyimpl::obj_block& b) {
-        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(b.size, b.alignment));
+    bool has_same_allocator(const any&, std::true_type /*stateless*/) const noexcept { return true; }
+    bool has_same_allocator(const any& o, std::false_type) const noexcept {
+        return static_cast<const Alloc&>(*this) == static_cast<const Alloc&>(o);
+    }
+
+    // set our block to one with the size and alignment of b and a value constructed by construct
+    template <typename Construct>
+    void make_block(const anyimpl::obj_block& b, Construct construct) {
+        const auto size = b.size;
+        const auto alignment = b.alignment;
+        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(size, alignment));
         try {
-            b.clone_to(m_block);
-            m_block->size = b.size;
-            m_block->alignment = b.alignment;
+            construct(m_block);
+            m_block->size = size;
+            m_block->alignment = alignment;
         }
         catch (...) {
-            free_block(b.size, b.alignment);
+            free_block(size, alignment);
             throw;
         }
     }
-- 
2.43.0


From dc9dd273879b6f12ce97bb6fd410b59b01720e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 27/66] fix: any: the header is self-contained

---
 include/itlib/any.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 553ff9e..68b0987 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -53,6 +53,7 @@
 #pragma once
 
 #include <new>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <utility>
@@ -307,7 +308,7 @@ private:
 };
 
 template <typename T>
-const T* any_cast(nullptr_t) { return nullptr; }
+const T* any_cast(std::nullptr_t) { return nullptr; }
 
 template <typename T, typename Alloc>
 const T* any_cast(const any<Alloc>* a) {
-- 
2.43.0


From af71ef0b57bacc14d63c2a1e0557bf1b5b39bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 28/66] fix: ufunction: a null pointer to a function of a
 compatible type is empty

---
 include/itlib/ufunction.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/itlib/ufunction.hpp b/include/itlib/ufunction.hpp
index 8bfac98..75a357a 100644
--- a/include/itlib/ufunction.hpp
+++ b/include/itlib/ufunction.hpp
@@ -89,12 +89,12 @@ public:
     ufunction& operator=(ufunction&&) noexcept = default;
 
     template <typename FO>
-    ufunction(FO f) noexcept : function(copy_wrapper<FO>{std::move(f)}) {}
+    ufunction(FO f) noexcept : function(wrap(f, is_func_ptr<FO>{})) {}
 
     template <typename FO>
     ufunction& operator=(FO f) noexcept
     {
-        function::operator=(copy_wrapper<FO>{std::move(f)});
+        function::operator=(wrap(f, is_func_ptr<FO>{}));
         return *this;
     }
 
@@ -135,6 +135,15 @@ private:
             return func_object(std::forward<Args>(args)...);
         }
     };
+
+    // pointers to functions of a compatible type may be null, so leave them to the parent as they are
+    template <typename FO>
+    using is_func_ptr = std::integral_constant<bool,
+        std::is_pointer<FO>::value && std::is_function<typename std::remove_pointer<FO>::type>::value>;
+    template <typename FO>
+    static FO wrap(FO fptr, std::true_type) noexcept { return fptr; }
+    template <typename FO>
+    static copy_wrapper<FO> wrap(FO& f, std::false_type) { return copy_wrapper<FO>{std::move(f)}; }
 };
 
 }
-- 
2.43.0


From ec3e278ef90786a79ec74de09c0f610bd885f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:47 +0000
Subject: [PATCH 29/66] fix: sentry: make_sentry from an lvalue compiles before
 C++17

---
 include/itlib/sentry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/sentry.hpp b/include/itlib/sentry.hpp
index ccd9458..116755e 100644
--- a/include/itlib/sentry.hpp
+++ b/include/itlib/sentry.hpp
@@ -106,7 +106,7 @@ public:
     ~sentry() { m_func(); }
 #else
     sentry(sentry&& other) noexcept
-        : m_func(std::move(other.m_func))
+        : m_func(std::forward<Func>(other.m_func))
         , m_has_func(other.m_has_func)
     {
         other.m_has_func = false;
-- 
2.43.0


From cc6719953f0908c2c19d18e60ab72df49171deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 30/66] fix: span: subspan with an offset beyond the end
 doesn't compute pointers outside of the range

---
 include/itlib/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index 8b10def..4c4f363 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -265,7 +265,7 @@ public:
     // slicing
     span subspan(size_t off, size_t count = size_t(-1)) const noexcept
     {
-        if (m_begin + off > m_end) return span(m_end, 0);
+        if (off > size()) return span(m_end, 0);
         auto newSize = size() - off;
         if (count > newSize) count = newSize;
         return span(m_begin + off, count);
-- 
2.43.0


From 9a2dc200ddef95c38ff14bcfab749411849b720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 31/66] fix: stride_span, poly_span: iterators can move and
 measure backwards

---
 include/itlib/poly_span.hpp   | 10 +++++-----
 include/itlib/stride_span.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index e48b4f3..227424c 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -223,11 +223,11 @@ public:
         CRT operator*() const noexcept { return poly_func(p); }
         t_iterator& operator++() noexcept { p += stride; return *this; }
         t_iterator& operator--() noexcept { p -= stride; return *this; }
-        t_iterator& operator+=(const ptrdiff_t diff) noexcept { p += diff * stride; return *this; }
-        t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
-        t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride, poly_func); }
-        t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        t_iterator& operator+=(const ptrdiff_t diff) noexcept { p += diff * ptrdiff_t(stride); return *this; }
+        t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * ptrdiff_t(stride); return *this; }
+        t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + diff * ptrdiff_t(stride), stride, poly_func); }
+        t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - diff * ptrdiff_t(stride), stride, poly_func); }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 998b3d8..2bf4197 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -209,11 +209,11 @@ public:
         CT* ptr() const noexcept { return reinterpret_cast<T*>(p); }
         t_iterator& operator++() noexcept { p += stride; return *this; }
         t_iterator& operator--() noexcept { p -= stride; return *this; }
-        t_iterator& operator+=(const ptrdiff_t diff) noexcept { p += diff * stride; return *this; }
-        t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
-        t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride); }
-        t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        t_iterator& operator+=(const ptrdiff_t diff) noexcept { p += diff * ptrdiff_t(stride); return *this; }
+        t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * ptrdiff_t(stride); return *this; }
+        t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + diff * ptrdiff_t(stride), stride); }
+        t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - diff * ptrdiff_t(stride), stride); }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From ad237f6f97f3c4d0460f108d20d89231d271f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 32/66] fix: generator: begin on a finished generator doesn't
 resume it

---
 include/itlib/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 0cead31..26a47f1 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -216,7 +216,7 @@ public:
     };
 
     pseudo_iterator begin() {
-        safe_resume(m_handle);
+        if (!done()) safe_resume(m_handle);
         return pseudo_iterator{m_handle};
     }
 
-- 
2.43.0


From 6423f6bf34bc0901b188d1f60912f775e61f4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 33/66] fix: generator: self move assignment doesn't destroy
 the coroutine

---
 include/itlib/generator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 26a47f1..8739c45 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -152,6 +152,7 @@ public:
     generator(generator&& other) noexcept : m_handle(std::exchange(other.m_handle, nullptr)) {}
 
     generator& operator=(generator&& other) noexcept {
+        if (this == &other) return *this;
         if (m_handle) m_handle.destroy();
         m_handle = std::exchange(other.m_handle, nullptr);
         return *this;
-- 
2.43.0


From a58192ad80adfcbdfa334eee750a45a0d0b7092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 34/66] fix: mem_ostreambuf: get_container works with
 small_vector

---
 include/itlib/mem_streambuf.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 4e8a83c..1d9168b 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -91,6 +91,8 @@
 #include <streambuf>
 #include <cstring>
 #include <cassert>
+#include <utility>
+#include <type_traits>
 
 namespace itlib
 {
@@ -127,9 +129,10 @@ public:
 
     Container get_container()
     {
+        using std::swap;
         Container ret;
         auto size = this->poff();
-        ret.swap(m_data);
+        swap(ret, m_data);
         this->setp(nullptr, nullptr);
         ret.resize(size);
         return ret;
-- 
2.43.0


From 1319021b33ac2aef5887c211d5aafd6294f5fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 35/66] fix: mem_ostreambuf: writes after get_container don't
 go outside of containers whose data() is non-null when empty

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 1d9168b..20cf59b 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -133,7 +133,7 @@ public:
         Container ret;
         auto size = this->poff();
         swap(ret, m_data);
-        this->setp(nullptr, nullptr);
+        this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
     }
-- 
2.43.0


From 93b5be84ed32bd72290c4fee95aacac1f5647550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 36/66] fix: mem_ostreambuf: seeks are relative to the written
 data and don't leave it

---
 include/itlib/mem_streambuf.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 20cf59b..07a153f 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -102,6 +102,7 @@ class mem_ostreambuf final : public std::basic_streambuf<typename Container::val
 {
 private:
     Container m_data;
+    size_t m_end = 0; // end of written data as of the last seek
     static_assert(std::is_trivial<typename Container::value_type>::value, "mem ostream must be of pod type");
     using super = std::basic_streambuf<typename Container::value_type>;
 public:
@@ -134,6 +135,7 @@ public:
         auto size = this->poff();
         swap(ret, m_data);
         this->setp(m_data.data(), m_data.data());
+        m_end = 0;
         ret.resize(size);
         return ret;
     }
@@ -142,6 +144,7 @@ public:
     {
         m_data.clear();
         this->setp(m_data.data(), m_data.data());
+        m_end = 0;
     }
 
 private:
@@ -177,7 +180,10 @@ private:
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setp(m_data.data() + int(sp), m_data.data() + m_data.size());
+        const auto off = off_type(sp);
+        update_end();
+        if (off < 0 || size_t(off) > m_end) return pos_type(off_type(-1));
+        this->setp(m_data.data() + off, m_data.data() + m_data.size());
         return sp;
     }
 
@@ -185,12 +191,17 @@ private:
     {
         if (way == std::ios_base::cur) return seekpos(poff() + off, std::ios_base::out);
         if (way == std::ios_base::beg) return seekpos(off, std::ios_base::out);
-        if (way == std::ios_base::end) return seekpos(m_data.size() + off, std::ios_base::out);
+        if (way == std::ios_base::end) { update_end(); return seekpos(m_end + off, std::ios_base::out); }
         return super::traits_type::eof();
     }
 
 private:
 
+    void update_end()
+    {
+        if (poff() > m_end) m_end = poff();
+    }
+
     void cap_resize_by(size_t by)
     {
         auto off = poff();
-- 
2.43.0


From 6cfad665f868a1674f44c17a553bd4b5d10c1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 37/66] fix: mem_ostreambuf: writing an empty block doesn't
 pass null pointers to memcpy

---
 include/itlib/mem_streambuf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 07a153f..eef7830 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -166,6 +166,8 @@ private:
 
     std::streamsize xsputn(const char_type* s, std::streamsize num) override
     {
+        if (num <= 0) return 0;
+
         auto rem = remaining_buf_size();
         if (rem < num)
         {
-- 
2.43.0


From 48c9b8f126f7fb79d8ff38d82c3db8f907888114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 38/66] fix: mem_ostreambuf: the put position is right after
 blocks longer than int_type or int can hold

---
 include/itlib/mem_streambuf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index eef7830..9916e82 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -175,7 +175,8 @@ private:
         }
 
         memcpy(this->pptr(), s, num * sizeof(char_type));
-        this->pbump(int_type(num));
+        // not pbump: it can't move by more than an int
+        this->setp(this->pptr() + num, this->epptr());
 
         return num;
     }
-- 
2.43.0


From 764ee96e37e4491168c7d893b00590a4e72283d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 39/66] fix: mem_istreambuf: seeks don't leave the buffer

---
 include/itlib/mem_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 9916e82..d2b968a 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -257,7 +257,9 @@ public:
 private:
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setg(this->eback(), this->eback() + sp, this->egptr());
+        const auto off = off_type(sp);
+        if (off < 0 || size_t(off) > size()) return pos_type(off_type(-1));
+        this->setg(this->eback(), this->eback() + off, this->egptr());
         return sp;
     }
 
-- 
2.43.0


From 4e1b11588170210283933a31d349936b5301bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 40/66] fix: mem_istreambuf: reading from an empty buffer
 doesn't use null pointers

---
 include/itlib/mem_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index d2b968a..1114b91 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -273,11 +273,13 @@ private:
 
     std::streamsize xsgetn(char_type* s, std::streamsize count) override
     {
-        if (this->gptr() + count > this->egptr())
+        if (count > this->egptr() - this->gptr())
         {
             count = this->egptr() - this->gptr();
         }
 
+        if (count <= 0) return 0;
+
         memcpy(s, this->gptr(), count * sizeof(char_type));
         this->setg(this->eback(), this->gptr() + count, this->egptr());
 
-- 
2.43.0


From 0e7bdc93df85cb9b517ea57b6a4478731cbe671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 41/66] fix: redirect_rstream: the position of the wrapped
 stream is restored after failed reads

---
 include/itlib/rstream.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/itlib/rstream.hpp b/include/itlib/rstream.hpp
index 997e51c..ca32133 100644
--- a/include/itlib/rstream.hpp
+++ b/include/itlib/rstream.hpp
@@ -124,7 +124,15 @@ public:
 
     ~basic_redirect_rstream()
     {
-        this->m_in.seekg(m_restore);
+        if (!this->m_in.fail())
+        {
+            this->m_in.seekg(m_restore);
+        }
+        else if (m_restore != std::streampos(std::streamoff(-1)))
+        {
+            // seekg does nothing for failed streams (or throws if they're set to)
+            this->m_in.rdbuf()->pubseekpos(m_restore, std::ios_base::in);
+        }
     }
 private:
     std::streampos m_restore;
-- 
2.43.0


From 2af9c584de8c6d149c02a483aec089e7934fbbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 42/66] fix: redirect_rstream: redirecting a stream which is at
 its end works

---
 include/itlib/rstream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/rstream.hpp b/include/itlib/rstream.hpp
index ca32133..8ecc266 100644
--- a/include/itlib/rstream.hpp
+++ b/include/itlib/rstream.hpp
@@ -118,7 +118,8 @@ public:
         : basic_rstream<Stream>(in)
         , m_restore(pos)
     {
-        m_restore = in.tellg();
+        // tellg would fail (and make the stream fail) at the end of the stream
+        m_restore = in.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
         in.seekg(pos);
     }
 
-- 
2.43.0


From abac3ced03e8244dfb245c7e7f1dd2fe8ca56ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:04 +0000
Subject: [PATCH 43/66] fix: data_mutex: a mutex whose locking throws isn't
 unlocked

---
 include/itlib/data_mutex.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 60ffbfe..61801df 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -76,8 +76,8 @@ public:
     protected:
         Mutex& m_mutex;
         CT* m_data;
-        lock_base_t(Mutex& mutex, CT& data) : m_mutex(mutex), m_data(&data) {}
-        lock_base_t(Mutex& mutex) : m_mutex(mutex) {}
+        // no data until the mutex is locked: if locking throws, nothing must be unlocked
+        lock_base_t(Mutex& mutex) : m_mutex(mutex), m_data(nullptr) {}
         ~lock_base_t() = default;
         lock_base_t(const lock_base_t&) = delete;
         lock_base_t& operator=(const lock_base_t&) = delete;
@@ -101,8 +101,9 @@ public:
     };
 
     struct unique_lock_t : public unique_lock_base_t<T> {
-        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex, dm.m_data) {
+        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -115,8 +116,9 @@ public:
     };
 
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
-        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex, dm.m_data) {
+        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -136,8 +138,9 @@ public:
     };
 
     struct shared_lock_t : public shared_lock_base_t {
-        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex, dm.m_data) {
+        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
             this->m_mutex.lock_shared();
+            this->m_data = &dm.m_data;
         }
     };
 
-- 
2.43.0


From bf8daf9f62bc341af761615fb000ca180bfcb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 44/66] fix: atomic_shared_ptr_storage: a failed
 compare_exchange doesn't release the expected pointer while locked

---
 include/itlib/atomic_shared_ptr_storage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index b59a038..90b232d 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -119,12 +119,14 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
+        sptr prev; // released after the lock: its destruction may use this object
         asps_spinlock::lock_guard _l(m_spinlock);
         if (m_ptr == expect) {
             m_ptr.swap(ptr);
             return true;
         }
         else {
+            prev.swap(expect);
             expect = m_ptr;
             return false;
         }
-- 
2.43.0


From 7d5771fccf41ee010c18dd354c0df5abdc2cadf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:20 +0000
Subject: [PATCH 45/66] fix: time_t: strftime with an empty result returns

---
 include/itlib/time_t.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/itlib/time_t.hpp b/include/itlib/time_t.hpp
index ee8dd6c..6f4000f 100644
--- a/include/itlib/time_t.hpp
+++ b/include/itlib/time_t.hpp
@@ -167,11 +167,15 @@ private:
 
 inline std::string strftime(const char* format, const std::tm& tm)
 {
+    // std::strftime returns zero both when the buffer is too small and when the result is empty
+    // so, prefix the format with a character to make sure that the result is never empty
+    const std::string prefixed_format = std::string(1, ' ') + format;
     std::string ret;
     ret.resize(128);
     size_t len;
-    while ((len = std::strftime(&ret.front(), ret.size(), format, &tm)) == 0) ret.resize(2 * ret.size());
+    while ((len = std::strftime(&ret.front(), ret.size(), prefixed_format.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
     ret.resize(len);
+    ret.erase(0, 1);
     return ret;
 }
 
-- 
2.43.0


From 1d90c18360480342e24c5b2a9cb3729e5a4f8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 46/66] fix: pmr_allocator: constructible from its parent, so
 containers can be copied and elements get its resource

---
 include/itlib/pmr_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 99beccd..9428d0b 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -61,6 +61,12 @@ public:
 
     using super::polymorphic_allocator;
 
+    pmr_allocator() noexcept = default;
+
+    // the inherited constructors don't include a copy of the parent type
+    // without this containers can't be copied and elements of type T which use this allocator won't get it
+    pmr_allocator(const super& other) noexcept : super(other) {}
+
     // leave this to the standard implementation if available
 #if __cplusplus < 202000L
     using super::resource;
-- 
2.43.0


From e74ad8bbae9b8af76ca21dd4028f9b596f8b2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 47/66] fix: pmr_allocator: allocate_object doesn't wrap around
 the size of huge requests

---
 include/itlib/pmr_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 9428d0b..45f0acb 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -50,6 +50,8 @@
 
 #include <memory_resource>
 #include <cstddef>
+#include <cstdint>
+#include <new>
 
 namespace itlib {
 
@@ -81,6 +83,7 @@ public:
 
     template <class U>
     [[nodiscard]] U* allocate_object(std::size_t n = 1) {
+        if (n > SIZE_MAX / sizeof(U)) throw std::bad_array_new_length();
         return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 2b80d1fd4c64dde933bbed8025129556ce4418ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:45 +0000
Subject: [PATCH 48/66] fix: qalgorithm: erase_all and erase_all_if work with
 containers without random access

---
 include/itlib/qalgorithm.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/itlib/qalgorithm.hpp b/include/itlib/qalgorithm.hpp
index 8b89314..7f9d67b 100644
--- a/include/itlib/qalgorithm.hpp
+++ b/include/itlib/qalgorithm.hpp
@@ -63,6 +63,7 @@
 
 #include <utility>
 #include <algorithm>
+#include <iterator>
 #include <type_traits>
 
 namespace itlib
@@ -133,7 +134,7 @@ template <typename Container, typename Value>
 typename Container::size_type erase_all(Container& c, const Value& val)
 {
     auto newend = std::remove(c.begin(), c.end(), val);
-    auto ret = c.end() - newend;
+    auto ret = std::distance(newend, c.end());
     c.erase(newend, c.end());
     return ret;
 }
@@ -142,7 +143,7 @@ template <typename Container, typename Pred>
 typename Container::size_type erase_all_if(Container& c, Pred&& pred)
 {
     auto newend = std::remove_if(c.begin(), c.end(), std::forward<Pred>(pred));
-    auto ret = c.end() - newend;
+    auto ret = std::distance(newend, c.end());
     c.erase(newend, c.end());
     return ret;
 }
-- 
2.43.0


From ede78053a651d40553d8309fe2b768f131bdb0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 49/66] fix: transparent_umap: the transparent overloads are
 enabled by the hash and key_equal of the map

---
 include/itlib/transparent_umap.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index a69436f..10a4fc7 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -61,6 +61,10 @@ template <typename T, typename = void>
 constexpr bool is_transparent = false;
 template <class T>
 constexpr bool is_transparent<T, std::void_t<typename T::is_transparent>> = true;
+
+// K is not used, but it defers the evaluation to the overload resolution
+template <typename K, typename Hash, typename KeyEqual>
+constexpr bool is_transparent_for = is_transparent<Hash> && is_transparent<KeyEqual>;
 } // namespace tumimpl
 
 // yes... a macro
@@ -83,13 +87,13 @@ public:
 
     // enable if transparent
     template <typename K, typename R>
-    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent<K>, R>;
+    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent_for<K, Hash, KeyEqual>, R>;
 
-    // enable if transparent and convertible
+    // enable if transparent and a key can be constructed from K
     template <typename K, typename R>
     using enable_if_tr_c = std::enable_if_t<
-        tumimpl::is_transparent<K>
-        && std::is_convertible_v<Key, K>
+        tumimpl::is_transparent_for<K, Hash, KeyEqual>
+        && std::is_constructible_v<Key, K>
         // but not iterators
         && !std::is_convertible_v<K, iterator>
         && !std::is_convertible_v<K, const_iterator>
-- 
2.43.0


From 401545656f92a01f93e5f114d599b4a79774e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 50/66] fix: transparent_umap: try_emplace with a hint compiles
 and returns an iterator

---
 include/itlib/transparent_umap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index 10a4fc7..553b18f 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -110,10 +110,10 @@ public:
     }
 
     template <typename K, typename... Args>
-    enable_if_tr<K, std::pair<iterator, bool>> try_emplace(const_iterator hint, K&& key, Args&&... args) {
+    enable_if_tr_c<K, iterator> try_emplace(const_iterator hint, K&& key, Args&&... args) {
         // what does the hint even mean?
         auto f = this->find(key);
-        if (f != this->end()) return { f, false };
+        if (f != this->end()) return f;
         return this->emplace_hint(hint, std::forward<K>(key), T(std::forward<Args>(args)...));
     }
 
-- 
2.43.0


From 8e0a44fb8212a99c68fb63fbd4df11ac1bdbd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 51/66] fix: transparent_umap: the transparent try_emplace
 constructs the value in place

---
 include/itlib/transparent_umap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index 553b18f..c9a22f9 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -53,6 +53,8 @@
 #include <unordered_map>
 #include <type_traits>
 #include <stdexcept>
+#include <tuple>
+#include <utility>
 
 namespace itlib {
 
@@ -106,7 +108,8 @@ public:
     enable_if_tr_c<K, std::pair<iterator, bool>> try_emplace(K&& key, Args&&... args) {
         auto f = this->find(key);
         if (f != this->end()) return { f, false };
-        return this->emplace(std::forward<K>(key), T(std::forward<Args>(args)...));
+        return this->emplace(std::piecewise_construct,
+            std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...));
     }
 
     template <typename K, typename... Args>
@@ -114,7 +117,8 @@ public:
         // what does the hint even mean?
         auto f = this->find(key);
         if (f != this->end()) return f;
-        return this->emplace_hint(hint, std::forward<K>(key), T(std::forward<Args>(args)...));
+        return this->emplace_hint(hint, std::piecewise_construct,
+            std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...));
     }
 
     using super::operator[];
-- 
2.43.0


From 117a73d1f1bbafc1ea3f29030d7122a6a6d03971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:26 +0000
Subject: [PATCH 52/66] fix: flat_set, flat_map: count and erase with a key
 which several elements are equivalent to

---
 include/itlib/flat_map.hpp | 14 ++++++++------
 include/itlib/flat_set.hpp | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/itlib/flat_map.hpp b/include/itlib/flat_map.hpp
index f2a7d79..712dafe 100644
--- a/include/itlib/flat_map.hpp
+++ b/include/itlib/flat_map.hpp
@@ -279,7 +279,9 @@ public:
     template <typename K>
     size_t count(const K& k) const
     {
-        return find(k) == end() ? 0 : 1;
+        // with a transparent comparator several elements may be equivalent to k
+        auto range = equal_range(k);
+        return size_t(range.second - range.first);
     }
 
     template <typename P>
@@ -325,14 +327,14 @@ public:
     template <typename K>
     size_type erase(const K& k)
     {
-        auto i = find(k);
-        if (i == end())
+        auto range = equal_range(k);
+        const auto n = size_type(range.second - range.first);
+        if (n != 0)
         {
-            return 0;
+            m_container.erase(range.first, range.second);
         }
 
-        erase(i);
-        return 1;
+        return n;
     }
 
     template <typename K>
diff --git a/include/itlib/flat_set.hpp b/include/itlib/flat_set.hpp
index 53f03a6..944ca6d 100644
--- a/include/itlib/flat_set.hpp
+++ b/include/itlib/flat_set.hpp
@@ -247,7 +247,9 @@ public:
     template <typename F>
     size_t count(const F& k) const
     {
-        return find(k) == end() ? 0 : 1;
+        // with a transparent comparator several elements may be equivalent to k
+        auto range = equal_range(k);
+        return size_t(range.second - range.first);
     }
 
     template <typename P>
@@ -293,14 +295,14 @@ public:
     template <typename F>
     size_type erase(const F& k)
     {
-        auto i = find(k);
-        if (i == end())
+        auto range = equal_range(k);
+        const auto n = size_type(range.second - range.first);
+        if (n != 0)
         {
-            return 0;
+            m_container.erase(range.first, range.second);
         }
 
-        erase(i);
-        return 1;
+        return n;
     }
 
     void swap(flat_set& x)
-- 
2.43.0


From 090e6fc1e98a4b84121cc0d9b018d180b2ec46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:28 +0000
Subject: [PATCH 53/66] fix: pod_vector: an assignment whose allocation throws
 leaves a valid vector

---
 include/itlib/pod_vector.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 79e9173..2e1f2c2 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -783,10 +783,16 @@ private:
     {
         if (capacity <= m_capacity) return;
 
+        const auto new_cap = get_new_capacity(capacity);
+
         a_free_begin();
 
-        m_capacity = get_new_capacity(capacity);
-        m_begin = m_end = pointer(a_malloc(m_capacity));
+        // the allocator may throw
+        m_begin = m_end = nullptr;
+        m_capacity = 0;
+
+        m_begin = m_end = pointer(a_malloc(new_cap));
+        m_capacity = new_cap;
     }
 
     // fill empty vector with given value
-- 
2.43.0


From 6ed3d6f677e4f9c1265de04d88bcd1011d518036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:28 +0000
Subject: [PATCH 54/66] fix: pod_vector: recast_take_from frees the buffer it
 took if the allocation throws

---
 include/itlib/pod_vector.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 2e1f2c2..88b6a2b 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -286,12 +286,25 @@ public:
         if (reinterpret_cast<uintptr_t>(m_begin) % alignof(T) != 0)
         {
             // the buffer is only aligned for U, so we must use another one
-            auto old_buf = other.real_addr(m_begin);
-            auto new_buf = pointer(a_malloc(m_capacity));
-            if (new_size) std::memcpy(new_buf, other.m_begin, e2b(new_size));
-            Alloc::free(old_buf);
-            m_begin = new_buf;
-            m_end = m_begin + new_size;
+            // free the old one in any case: the allocator may throw
+            struct old_buf
+            {
+                Alloc& alloc;
+                void* buf;
+                ~old_buf() { alloc.free(buf); }
+            } old = {get_alloc(), other.real_addr(m_begin)};
+
+            const auto old_begin = other.m_begin;
+            const auto cap = m_capacity;
+            m_begin = m_end = nullptr;
+            m_capacity = 0;
+            other.m_begin = other.m_end = nullptr;
+            other.m_capacity = 0;
+
+            m_begin = m_end = pointer(a_malloc(cap));
+            m_capacity = cap;
+            if (new_size) std::memcpy(m_begin, old_begin, e2b(new_size));
+            m_end += new_size;
         }
 
         other.m_begin = other.m_end = nullptr;
-- 
2.43.0


From 5a711cc0549a7d0ec1cdbe64ff960ea8740596a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:28 +0000
Subject: [PATCH 55/66] fix: dynamic_bitset: a resize which fails leaves the
 size as it was

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 5461bf7..be7fc0e 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -260,8 +260,8 @@ public:
             // clear the tail of the buf with zeroes in case they remain from previous ops
             m_buf.back() &= word_mask(pad) - 1;
         }
+        m_buf.resize(word_size(size)); // may throw
         m_size = size;
-        m_buf.resize(word_size(size));
     }
     void push_back(bool b)
     {
-- 
2.43.0


From e4d4c33012d1d1948a2584bf22fcb4fc69afcb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:28 +0000
Subject: [PATCH 56/66] fix: dynamic_bitset: word_size does not overflow for
 impossible sizes

---
 include/itlib/dynamic_bitset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index be7fc0e..324232c 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -414,7 +414,8 @@ public:
     // required word size for a given bit size
     static constexpr buffer_size_type word_size(size_type size) noexcept
     {
-        return (size + bits_per_word - 1) / bits_per_word;
+        // not (size + bits_per_word - 1) / bits_per_word: it may overflow
+        return size / bits_per_word + (size % bits_per_word != 0);
     }
     // index of a word in buffer for a given bit index
     static constexpr buffer_size_type word_index(size_type i) noexcept
-- 
2.43.0


From 9f2aa67b6bab835efc494607bab58e93492e7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:45 +0000
Subject: [PATCH 57/66] fix: static_vector: move assignment is noexcept only
 when construction by move is

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 53391c6..343e872 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -263,7 +263,7 @@ public:
         return *this;
     }
 
-    static_vector& operator=(static_vector&& v) noexcept(std::is_nothrow_move_assignable<T>::value)
+    static_vector& operator=(static_vector&& v) noexcept(std::is_nothrow_move_constructible<T>::value)
     {
         clear();
         for (auto i = v.begin(); i!=v.end(); ++i)
-- 
2.43.0


From 835451b4a0ec9fd53cfcd5bfb4ca09a35fbc6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:45 +0000
Subject: [PATCH 58/66] fix: expected: don't use operator& and class-specific
 placement new of the value and error

---
 include/itlib/expected.hpp | 45 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 5211edb..22a55e8 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -142,6 +142,7 @@
 #pragma once
 
 #include <cassert>
+#include <memory>
 #include <utility>
 #include <new>
 
@@ -197,11 +198,11 @@ public:
     {
         if (m_has_value)
         {
-            new (&m_value) T(std::move(other.m_value));
+            ::new (static_cast<void*>(std::addressof(m_value))) T(std::move(other.m_value));
         }
         else
         {
-            new (&m_error) E(std::move(other.m_error));
+            ::new (static_cast<void*>(std::addressof(m_error))) E(std::move(other.m_error));
         }
     }
 
@@ -215,13 +216,13 @@ public:
         {
             m_has_value = false;
             m_value.~T();
-            ::new (&m_error) E(std::move(other.m_error));
+            ::new (static_cast<void*>(std::addressof(m_error))) E(std::move(other.m_error));
         }
         else if(!m_has_value && other.has_value())
         {
             m_has_value = true;
             m_error.~E();
-            ::new (&m_value) T(std::move(other.m_value));
+            ::new (static_cast<void*>(std::addressof(m_value))) T(std::move(other.m_value));
         }
         else
         {
@@ -275,8 +276,8 @@ public:
     template <typename U>
     T value_or(U&& v) && { return has_value() ? std::move(value()) : static_cast<T>(std::forward<U>(v)); }
 
-    T* operator->() { return &value(); }
-    const T* operator->() const { return &value(); }
+    T* operator->() { return std::addressof(value()); }
+    const T* operator->() const { return std::addressof(value()); }
 
     // error getters
 
@@ -313,7 +314,7 @@ public:
     using value_type = T;
     using error_type = E;
 
-    expected(T& t) : m_value(&t) {}
+    expected(T& t) : m_value(std::addressof(t)) {}
 
     template <typename E2>
     expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
@@ -330,7 +331,7 @@ public:
     {
         if (!m_value)
         {
-            new (&m_error) E(std::move(other.m_error));
+            ::new (static_cast<void*>(std::addressof(m_error))) E(std::move(other.m_error));
         }
     }
 
@@ -343,7 +344,7 @@ public:
         else if (m_value && !other.m_value)
         {
             m_value = nullptr;
-            ::new (&m_error) E(std::move(other.m_error));
+            ::new (static_cast<void*>(std::addressof(m_error))) E(std::move(other.m_error));
         }
         else if (!m_value && other.m_value)
         {
@@ -378,7 +379,7 @@ public:
     }
     T& operator*() const { return value(); }
     T& value_or(T& v) const { return has_value() ? value() : v; }
-    T* operator->() const { return &value(); }
+    T* operator->() const { return std::addressof(value()); }
 
     // error getters
 
@@ -430,7 +431,7 @@ public:
     {
         if (!m_has_value)
         {
-            new (&m_error) E(std::move(other.m_error));
+            ::new (static_cast<void*>(std::addressof(m_error))) E(std::move(other.m_error));
         }
     }
 
@@ -439,7 +440,7 @@ public:
         if (m_has_value && !other.has_value())
         {
             m_has_value = false;
-            ::new (&m_error) E(std::move(other.m_error));
+            ::new (static_cast<void*>(std::addressof(m_error))) E(std::move(other.m_error));
         }
         else if (!m_has_value && other.has_value())
         {
@@ -512,7 +513,7 @@ public:
     {
         if (m_has_value)
         {
-            new (&m_value) T(other.m_value);
+            ::new (static_cast<void*>(std::addressof(m_value))) T(other.m_value);
         }
     }
     expected& operator=(const expected& other)
@@ -528,7 +529,7 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
-            ::new (&m_value) T(other.m_value);
+            ::new (static_cast<void*>(std::addressof(m_value))) T(other.m_value);
             m_has_value = true;
         }
         return *this;
@@ -539,7 +540,7 @@ public:
     {
         if (m_has_value)
         {
-            new (&m_value) T(std::move(other.m_value));
+            ::new (static_cast<void*>(std::addressof(m_value))) T(std::move(other.m_value));
         }
     }
 
@@ -557,7 +558,7 @@ public:
         else if (!m_has_value && other.has_value())
         {
             m_has_value = true;
-            ::new (&m_value) T(std::move(other.m_value));
+            ::new (static_cast<void*>(std::addressof(m_value))) T(std::move(other.m_value));
         }
         return *this;
     }
@@ -586,7 +587,7 @@ public:
     void emplace(Args&&... args)
     {
         clear();
-        ::new (&m_value) T(std::forward<Args>(args)...);
+        ::new (static_cast<void*>(std::addressof(m_value))) T(std::forward<Args>(args)...);
         m_has_value = true;
     }
 
@@ -618,8 +619,8 @@ public:
     template <typename U>
     T value_or(U&& v)&& { return has_value() ? std::move(value()) : static_cast<T>(std::forward<U>(v)); }
 
-    T* operator->() { return &value(); }
-    const T* operator->() const { return &value(); }
+    T* operator->() { return std::addressof(value()); }
+    const T* operator->() const { return std::addressof(value()); }
 
     // error getters: none
 
@@ -637,7 +638,7 @@ public:
     using value_type = T;
     using error_type = void;
 
-    expected(T& t) : m_value(&t) {}
+    expected(T& t) : m_value(std::addressof(t)) {}
     expected(unexpected_t<void>) : m_value(nullptr) {}
 
     expected(const expected&) = default;
@@ -652,7 +653,7 @@ public:
 
     // optional interface
     void clear() { m_value = nullptr; }
-    void emplace(T& t) { m_value = &t; }
+    void emplace(T& t) { m_value = std::addressof(t); }
 
     // value getters (pointer semantics)
     T& value() const
@@ -662,7 +663,7 @@ public:
     }
     T& operator*() const { return value(); }
     T& value_or(T& v) const { return has_value() ? value() : v; }
-    T* operator->() const { return &value(); }
+    T* operator->() const { return std::addressof(value()); }
 
     // error getters: none
 
-- 
2.43.0


From 880ad6196e4588a18dc1a1370de4875e6264a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:45 +0000
Subject: [PATCH 59/66] fix: any: don't use operator& of the value

---
 include/itlib/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 68b0987..a3f0b32 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -114,7 +114,7 @@ struct obj_block_for final : public obj_block {
     ~obj_block_for() = default;
 
     virtual void* data() noexcept override {
-        return &m_data;
+        return std::addressof(m_data);
     }
 
     template <typename U = T, typename std::enable_if<!std::is_copy_constructible<U>::value, int>::type = 0>
-- 
2.43.0


From 099fd3002224f62548c1706fc28c0f12ac6df2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:45 +0000
Subject: [PATCH 60/66] fix: data_mutex: don't use operator& of the data

---
 include/itlib/data_mutex.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 61801df..436ed63 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -55,6 +55,7 @@
 //
 #pragma once
 #include <utility>
+#include <memory>
 
 namespace itlib {
 
@@ -103,13 +104,13 @@ public:
     struct unique_lock_t : public unique_lock_base_t<T> {
         explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
             this->m_mutex.lock();
-            this->m_data = &dm.m_data;
+            this->m_data = std::addressof(dm.m_data);
         }
     };
 
     struct try_unique_lock_t : public unique_lock_base_t<T> {
         explicit try_unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
-            if (this->m_mutex.try_lock()) this->m_data = &dm.m_data;
+            if (this->m_mutex.try_lock()) this->m_data = std::addressof(dm.m_data);
             else this->m_data = nullptr;
         }
         explicit operator bool() const noexcept { return !!this->m_data; }
@@ -118,13 +119,13 @@ public:
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
         explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
             this->m_mutex.lock();
-            this->m_data = &dm.m_data;
+            this->m_data = std::addressof(dm.m_data);
         }
     };
 
     struct try_const_unique_lock_t : public unique_lock_base_t<const T> {
         explicit try_const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
-            if (this->m_mutex.try_lock()) this->m_data = &dm.m_data;
+            if (this->m_mutex.try_lock()) this->m_data = std::addressof(dm.m_data);
             else this->m_data = nullptr;
         }
         explicit operator bool() const noexcept { return !!this->m_data; }
@@ -140,13 +141,13 @@ public:
     struct shared_lock_t : public shared_lock_base_t {
         explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
             this->m_mutex.lock_shared();
-            this->m_data = &dm.m_data;
+            this->m_data = std::addressof(dm.m_data);
         }
     };
 
     struct try_shared_lock_t : public shared_lock_base_t {
         explicit try_shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
-            if (this->m_mutex.try_lock_shared()) this->m_data = &dm.m_data;
+            if (this->m_mutex.try_lock_shared()) this->m_data = std::addressof(dm.m_data);
             else this->m_data = nullptr;
         }
         explicit operator bool() const noexcept { return !!this->m_data; }
-- 
2.43.0


From 3c09477678bdbc8b4046ec4e7112dd71a1a8423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:45 +0000
Subject: [PATCH 61/66] fix: generator: don't use operator& of references
 yielded

---
 include/itlib/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 8739c45..d0224b3 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -81,6 +81,7 @@
 #include <coroutine>
 #include <type_traits>
 #include <exception>
+#include <memory>
 #include <optional>
 #include <utility>
 
@@ -97,7 +98,7 @@ template <typename T>
 class generator_value <T&> {
     T* m_val = nullptr;
 public:
-    void emplace(T& v) noexcept { m_val = &v; }
+    void emplace(T& v) noexcept { m_val = std::addressof(v); }
     void reset() noexcept { m_val = nullptr; }
     T& operator*() noexcept { return *m_val; }
     bool has_value() const noexcept { return m_val != nullptr; }
-- 
2.43.0


From 5c272c496eb2d6313d2b54c4ea1135a5a7db862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:45 +0000
Subject: [PATCH 62/66] fix: qalgorithm: pfind and pfind_if don't use operator&
 of the element

---
 include/itlib/qalgorithm.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/itlib/qalgorithm.hpp b/include/itlib/qalgorithm.hpp
index 7f9d67b..92e6284 100644
--- a/include/itlib/qalgorithm.hpp
+++ b/include/itlib/qalgorithm.hpp
@@ -64,6 +64,7 @@
 #include <utility>
 #include <algorithm>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 
 namespace itlib
@@ -95,7 +96,7 @@ typename impl::pointer_t<Container>::type pfind(Container& c, const Value& val)
 {
     auto f = std::find(c.begin(), c.end(), val);
     if (f == c.end()) return nullptr;
-    return &(*f);
+    return std::addressof(*f);
 }
 
 template <typename Container, typename Pred>
@@ -109,7 +110,7 @@ typename impl::pointer_t<Container>::type pfind_if(Container& c, Pred&& pred)
 {
     auto f = std::find_if(c.begin(), c.end(), std::forward<Pred>(pred));
     if (f == c.end()) return nullptr;
-    return &(*f);
+    return std::addressof(*f);
 }
 
 template <typename Container, typename Value>
-- 
2.43.0


From e6be09e0b0a04acd036ac142e0fc7f42c6e577ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:45 +0000
Subject: [PATCH 63/66] fix: stride_span: member views don't use operator& of
 the member

---
 include/itlib/stride_span.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 2bf4197..189f8fa 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -72,6 +72,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 
 #if defined(ITLIB_STRIDE_SPAN_NO_DEBUG_BOUNDS_CHECK)
@@ -356,14 +357,14 @@ stride_span<T> make_stride_span_from_array(T* ar, size_t ar_length, size_t noffs
 template <typename Struct, typename Field>
 stride_span<Field> make_stride_span_member_view(Struct* ar, size_t ar_length, Field (Struct::*member))
 {
-    auto begin = &(ar->*member);
+    auto begin = std::addressof(ar->*member);
     return make_stride_span_from_buf(begin, sizeof(Struct), ar_length);
 }
 
 template <typename Struct, typename Field>
 stride_span<const Field> make_stride_span_member_view(const Struct* ar, size_t ar_length, Field (Struct::*member))
 {
-    auto begin = &(ar->*member);
+    auto begin = std::addressof(ar->*member);
     return make_stride_span_from_buf(begin, sizeof(Struct), ar_length);
 }
 
-- 
2.43.0


From 897f08d2c525787b47725204c4187c9163235c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:45 +0000
Subject: [PATCH 64/66] fix: utility: owner_from_member and bit_cast don't use
 operator& of their arguments

---
 include/itlib/utility.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/itlib/utility.hpp b/include/itlib/utility.hpp
index 2378143..6b0f23a 100644
--- a/include/itlib/utility.hpp
+++ b/include/itlib/utility.hpp
@@ -62,6 +62,7 @@
 #include <type_traits>
 #include <cstdint>
 #include <cstring>
+#include <memory>
 
 namespace itlib
 {
@@ -75,9 +76,10 @@ constexpr typename std::remove_reference<T>::type&& force_move(T&& t) noexcept {
 
 template <typename Owner, typename Member>
 const Owner* owner_from_member(const Member& member, Member(Owner::* ptr)) noexcept {
-    auto m_p = reinterpret_cast<const uint8_t*>(&member);
-    Owner* null_owner = nullptr;
-    auto m_offset = reinterpret_cast<uintptr_t>(&(null_owner->*ptr));
+    auto m_p = reinterpret_cast<const uint8_t*>(std::addressof(member));
+    // not null, as a reference to its member is formed
+    auto fake_owner = reinterpret_cast<Owner*>(uintptr_t(alignof(Owner)));
+    auto m_offset = reinterpret_cast<uintptr_t>(std::addressof(fake_owner->*ptr)) - uintptr_t(alignof(Owner));
     return reinterpret_cast<const Owner*>(m_p - m_offset);
 }
 
@@ -88,7 +90,7 @@ template <typename Dst, typename Src>
 constexpr Dst bit_cast(const Src& src) noexcept {
     static_assert(sizeof(Dst) == sizeof(Src), "bit_cast requires types of equal size");
     Dst dst;
-    std::memcpy(&dst, &src, sizeof(Src));
+    std::memcpy(static_cast<void*>(std::addressof(dst)), std::addressof(src), sizeof(Src));
     return dst;
 }
 
-- 
2.43.0


From 7716bf59c13c57eb9d0be459557d57508a4fde28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:53 +0000
Subject: [PATCH 65/66] fix: dynamic_bitset: include what is used, so that the
 header compiles on its own before C++17

---
 include/itlib/dynamic_bitset.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 324232c..7ee4e3a 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -125,7 +125,10 @@
 //
 #pragma once
 
+#include <cstddef>
 #include <cstdint>
+#include <type_traits>
+#include <utility>
 #include <vector>
 #include <cassert>
 
-- 
2.43.0


From 74d6d78226e259a8ef6b851450a3458ffd775456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:53 +0000
Subject: [PATCH 66/66] fix: tep_vector: include what is used, so that the
 header compiles on its own

---
 include/itlib/tep_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/tep_vector.hpp b/include/itlib/tep_vector.hpp
index fb9cf34..9b152c6 100644
--- a/include/itlib/tep_vector.hpp
+++ b/include/itlib/tep_vector.hpp
@@ -41,6 +41,7 @@
 // https://github.com/iboB/itlib/blob/master/test/
 //
 #pragma once
+#include <cstddef>
 #include <cstdint>
 
 namespace itlib {
-- 
2.43.0

