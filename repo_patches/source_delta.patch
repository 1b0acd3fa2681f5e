From 7113ca94c75e9802fc8cb906708e2ff0011f1054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 01/47] fix: only treat 00 00 FE FF as a UTF-32 big endian BOM

---
 include/lexy/input/buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 4380528..ee6d452 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -440,7 +440,8 @@ struct _make_buffer<utf32_encoding, encoding_endianness::bom>
         {
             if (memory[0] == 0xFF && memory[1] == 0xFE && memory[2] == 0x00 && memory[3] == 0x00)
                 return utf32_little(memory + 4, size - 4, resource);
-            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3])
+            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE
+                     && memory[3] == 0xFF)
                 return utf32_big(memory + 4, size - 4, resource);
         }
 
-- 
2.43.0


From fb934730cf57d1c654f60125e478498436666bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 02/47] fix: release file mapping if creating the buffer throws

---
 src/input/file.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/input/file.cpp b/src/input/file.cpp
index 7d80063..e3f4adc 100644
--- a/src/input/file.cpp
+++ b/src/input/file.cpp
@@ -39,6 +39,25 @@ private:
     int _file;
 };
 
+// Releases the mapping even if the callback throws.
+class raii_mmap
+{
+public:
+    explicit raii_mmap(void* memory, std::size_t size) noexcept : _memory(memory), _size(size) {}
+
+    raii_mmap(const raii_mmap&)            = delete;
+    raii_mmap& operator=(const raii_mmap&) = delete;
+
+    ~raii_mmap() noexcept
+    {
+        ::munmap(_memory, _size);
+    }
+
+private:
+    void*       _memory;
+    std::size_t _size;
+};
+
 lexy::file_error get_file_error() noexcept
 {
     switch (errno)
@@ -99,10 +118,9 @@ lexy::file_error lexy::_detail::read_file(const char* path, file_callback cb, vo
         auto memory = ::mmap(nullptr, size, PROT_READ, MAP_PRIVATE, fd, 0);
         if (memory == MAP_FAILED) // NOLINT: int-to-ptr conversion happens in header
             return lexy::file_error::os_error;
+        raii_mmap mapping(memory, size);
 
         cb(user_data, reinterpret_cast<const char*>(memory), size);
-
-        ::munmap(memory, size);
     }
 
     return lexy::file_error::_success;
-- 
2.43.0


From f34648f59869630e97adb0d01a93cade6ecbed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 03/47] fix: report an error for files that end in the middle
 of a code unit

---
 include/lexy/input/file.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/file.hpp b/include/lexy/input/file.hpp
index 65d5a40..ce9ae45 100644
--- a/include/lexy/input/file.hpp
+++ b/include/lexy/input/file.hpp
@@ -96,14 +96,24 @@ struct _read_file_user_data
 {
     lexy::buffer<Encoding, MemoryResource> buffer;
     MemoryResource*                        resource;
+    file_error                             error;
 
-    _read_file_user_data(MemoryResource* resource) : buffer(resource), resource(resource) {}
+    _read_file_user_data(MemoryResource* resource)
+    : buffer(resource), resource(resource), error(file_error::_success)
+    {}
 
     static auto callback()
     {
         return [](void* _user_data, const char* memory, std::size_t size) {
             auto user_data = static_cast<_read_file_user_data*>(_user_data);
 
+            if (size % sizeof(typename Encoding::char_type) != 0)
+            {
+                // The content has been truncated in the middle of a code unit.
+                user_data->error = file_error::os_error;
+                return;
+            }
+
             user_data->buffer
                 = lexy::make_buffer_from_raw<Encoding, Endian>(memory, size, user_data->resource);
         };
@@ -119,6 +129,8 @@ auto read_file(const char*     path,
 {
     _read_file_user_data<Encoding, Endian, MemoryResource> user_data(resource);
     auto error = _detail::read_file(path, user_data.callback(), &user_data);
+    if (error == file_error::_success)
+        error = user_data.error;
     return read_file_result(error, LEXY_MOV(user_data.buffer));
 }
 
@@ -130,6 +142,8 @@ auto read_stdin(MemoryResource* resource = _detail::get_memory_resource<MemoryRe
 {
     _read_file_user_data<Encoding, Endian, MemoryResource> user_data(resource);
     auto error = _detail::read_stdin(user_data.callback(), &user_data);
+    if (error == file_error::_success)
+        error = user_data.error;
     return read_file_result(error, LEXY_MOV(user_data.buffer));
 }
 } // namespace lexy
-- 
2.43.0


From 6f09de1756cde0f352352b33c05a9b80b36aa8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:17 +0000
Subject: [PATCH 04/47] fix: make shell::writer::operator() for lexemes usable

The lexeme iterator of the shell isn't random access, so lexeme.size() doesn't
compile, and the begin of an empty lexeme at the end of the buffer can't be
dereferenced.
---
 include/lexy_ext/shell.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 0e192c6..303be86 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -331,9 +331,12 @@ public:
 
         writer& operator()(lexy::lexeme_for<input> lexeme)
         {
-            // We know that the iterator is contiguous.
-            auto data = &*lexeme.begin();
-            _writer(data, lexeme.size());
+            if (!lexeme.empty())
+            {
+                // We know that the iterator is contiguous.
+                auto data = &*lexeme.begin();
+                _writer(data, lexy::_detail::range_size(lexeme.begin(), lexeme.end()));
+            }
             return *this;
         }
 
-- 
2.43.0


From 32db6a6f4305ccebac3d57ad6284c7a17f2964da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 05/47] fix: don't drop an unterminated last line of the shell

If the user closed the prompt while entering a continuation line, the
characters were added to the buffer but EOF was reported.
---
 include/lexy_ext/shell.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 303be86..cfbf2a5 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -232,10 +232,10 @@ public:
                 // We've reached the end of the buffer, but the user might be willing to type
                 // another line.
                 _shell->_prompt.continuation_prompt();
-                auto did_append = _shell->append_next_line();
-                if (!did_append)
+                if (!_shell->append_next_line())
                     _shell->_prompt.eof_prompt();
-                return !did_append;
+                // Even if the line wasn't complete, it might have added characters.
+                return _idx == _shell->_buffer.read_size();
             }
         }
 
-- 
2.43.0


From 8d590281db2a2487c2de0f2defb45f749b8af017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:55 +0000
Subject: [PATCH 06/47] fix: copy all bytes of wide characters in
 buffer_builder::grow()

---
 include/lexy/_detail/buffer_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/buffer_builder.hpp b/include/lexy/_detail/buffer_builder.hpp
index f0f5b17..9fc10a2 100644
--- a/include/lexy/_detail/buffer_builder.hpp
+++ b/include/lexy/_detail/buffer_builder.hpp
@@ -91,7 +91,7 @@ public:
         // Allocate new memory.
         auto memory = static_cast<T*>(::operator new(new_cap * sizeof(T)));
         // Copy the read area into the new memory.
-        std::memcpy(memory, _data, _read_size);
+        std::memcpy(memory, _data, _read_size * sizeof(T));
 
         // Release the old memory, if there was any.
         if (_data != _stack_buffer)
-- 
2.43.0


From d5261b9903b687ca06008052027d52e49afca87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:08 +0000
Subject: [PATCH 07/47] fix: read long lines and null characters in
 default_prompt

fgets() reads at most size - 1 characters, but the shell takes a short read
without newline as the end of input, so a line filling the buffer triggered the
assertion; strlen() dropped everything after an embedded null character.
---
 include/lexy_ext/shell.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index cfbf2a5..7199255 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -101,13 +101,19 @@ struct default_prompt
     {
         std::size_t operator()(char_type* buffer, std::size_t size)
         {
-            LEXY_PRECONDITION(size > 1);
+            // Not fgets(): it leaves room for a null terminator and hides embedded null characters.
+            std::size_t count = 0;
+            while (count < size)
+            {
+                auto c = std::fgetc(stdin);
+                if (c == EOF)
+                    break;
 
-            auto memory = reinterpret_cast<char*>(buffer);
-            if (auto str = std::fgets(memory, int(size), stdin))
-                return std::strlen(str);
-            else
-                return 0;
+                buffer[count++] = static_cast<char_type>(c);
+                if (c == '\n')
+                    break;
+            }
+            return count;
         }
 
         void done() && {}
-- 
2.43.0


From d42e33074287dced2505197d166c182a8fe80082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:30 +0000
Subject: [PATCH 08/47] fix: write null characters of shell messages

---
 include/lexy_ext/shell.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 7199255..e460139 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -129,7 +129,7 @@ struct default_prompt
 
         void operator()(const char_type* buffer, std::size_t size)
         {
-            std::fprintf(stdout, "%.*s", int(size), reinterpret_cast<const char*>(buffer));
+            std::fwrite(buffer, sizeof(char_type), size, stdout);
             if (size > 0)
                 _last_was_newline = buffer[size - 1] == '\n';
         }
-- 
2.43.0


From 02b1305d163aabbc7f6f2d90221f3cfbf2dd0f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 09/47] fix: don't look at the character before the write area
 if nothing was read

---
 include/lexy_ext/shell.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index e460139..0a0fe2b 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -392,7 +392,7 @@ private:
             _buffer.commit(read);
 
             // Check whether we've read the entire line.
-            if (_buffer.write_data()[-1] == '\n')
+            if (read > 0 && _buffer.write_data()[-1] == '\n')
             {
                 LEXY_MOV(reader).done();
                 return true;
-- 
2.43.0


From ac2420b8caf80e42e66b53d9317ed9d84d03094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:44 +0000
Subject: [PATCH 10/47] fix: make buffers without memory readable

A default constructed, moved-from or released buffer is empty, but reading it
dereferenced a null pointer for encodings where the EOF sentinel is stored in
the buffer.
---
 include/lexy/input/buffer.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index ee6d452..21a2468 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -265,12 +265,29 @@ public:
     auto reader() const& noexcept
     {
         if constexpr (_has_sentinel)
-            return _buffer_reader<encoding>(_data);
+        {
+            // A buffer without memory (default constructed, moved-from, released) doesn't have the
+            // sentinel itself.
+            static constexpr auto empty = _empty_memory();
+            return _buffer_reader<encoding>(_data != nullptr ? _data : empty.data);
+        }
         else
             return _range_reader<encoding>(_data, _data + _size);
     }
 
 private:
+    // What an empty buffer would allocate: just the sentinel.
+    struct _empty_memory
+    {
+        char_type data[_detail::round_size_for_swar(1)];
+
+        constexpr _empty_memory() : data{}
+        {
+            for (auto& c : data)
+                c = encoding::eof();
+        }
+    };
+
     char_type* allocate(std::size_t size) const
     {
         if constexpr (_has_sentinel)
-- 
2.43.0


From 5e0a81b2aa2b616159ed442431a4d4df173bdda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 11/47] fix: allow node access in a parse_tree with custom
 MemoryResource

Only the parse_tree with the default resource was a friend of its nodes, so
root() and traverse() did not compile for any other one.
---
 include/lexy/parse_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 20f3fe9..1f9d4a2 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1085,7 +1085,8 @@ private:
 
     _detail::pt_node<Reader>* _ptr;
 
-    friend parse_tree<Reader, TokenKind>;
+    template <typename, typename, typename>
+    friend class parse_tree;
     friend parse_tree_input_traits<_pt_node<Reader, TokenKind>>;
 };
 
-- 
2.43.0


From 06bf9c9c70bdd571e7c191fed4def175f9889c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:50 +0000
Subject: [PATCH 12/47] fix: make parse_tree::clear() set the size and not
 allocate memory

size() kept the old value, and clearing a tree that doesn't have any memory yet
allocated some inside a noexcept function.
---
 include/lexy/parse_tree.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 1f9d4a2..bc2d2c1 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -366,8 +366,10 @@ public:
 
     void clear() noexcept
     {
-        _buffer.reset();
-        _root = nullptr;
+        // The memory is re-used when a new tree is built.
+        _root  = nullptr;
+        _size  = 0;
+        _depth = 0;
     }
 
     //=== node access ===//
-- 
2.43.0


From 23a00fd352242963daefa19b59b0ccb8b7aa005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 13/47] fix: leave a moved-from parse_tree empty

It kept pointing to the nodes, which now belong to another tree or have already
been released, e.g. after an exception was thrown during parse_as_tree().
---
 include/lexy/parse_tree.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index bc2d2c1..309eae4 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -347,6 +347,29 @@ public:
     : _buffer(resource), _root(nullptr), _size(0), _depth(0)
     {}
 
+    parse_tree(parse_tree&& other) noexcept
+    : _buffer(LEXY_MOV(other._buffer)), _root(other._root), _size(other._size), _depth(other._depth)
+    {
+        other.clear();
+    }
+
+    ~parse_tree() noexcept = default;
+
+    parse_tree& operator=(parse_tree&& other) noexcept
+    {
+        _buffer = LEXY_MOV(other._buffer);
+
+        auto root  = other._root;
+        auto size  = other._size;
+        auto depth = other._depth;
+        other.clear();
+
+        _root  = root;
+        _size  = size;
+        _depth = depth;
+        return *this;
+    }
+
     //=== container access ===//
     bool empty() const noexcept
     {
-- 
2.43.0


From 0d836825da3cc3d3ee7d3361fe27771d497de2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:57 +0000
Subject: [PATCH 14/47] fix: don't count nodes of cancelled productions in
 parse_tree::size()

---
 include/lexy/parse_tree.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 309eae4..45a54c0 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -447,11 +447,13 @@ public:
     class marker
     {
     public:
-        marker() : marker(nullptr, 0) {}
+        marker() : marker(nullptr, 0, 0) {}
 
     private:
         // Where to unwind when done.
         void* unwind_pos;
+        // The size of the tree to restore when unwinding.
+        std::size_t unwind_size;
         // The current production node.
         // nullptr if using the container API.
         _detail::pt_node_production<Reader>* prod;
@@ -467,10 +469,11 @@ public:
         // The maximum local depth seen in the subtree beginning at the marker.
         std::size_t local_max_depth;
 
-        explicit marker(void* unwind_pos, std::size_t cur_depth,
+        explicit marker(void* unwind_pos, std::size_t unwind_size, std::size_t cur_depth,
                         _detail::pt_node_production<Reader>* prod = nullptr)
-        : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
-          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth)
+        : unwind_pos(unwind_pos), unwind_size(unwind_size), prod(prod), child_count(0),
+          first_child(nullptr), last_child(nullptr), cur_depth(cur_depth),
+          local_max_depth(cur_depth)
         {}
 
         void clear()
@@ -574,7 +577,7 @@ public:
         _result._depth = 0;
 
         // Begin construction at the root.
-        _cur = marker(_result._buffer.top(), 0, _result._root);
+        _cur = marker(_result._buffer.top(), _result._size, 0, _result._root);
     }
     explicit builder(production_info production) : builder(parse_tree(), production) {}
 
@@ -623,7 +626,7 @@ public:
 
         // Subsequent insertions are to the new node, so update marker and return old one.
         auto old = LEXY_MOV(_cur);
-        _cur     = marker(node, old.cur_depth + 1, node);
+        _cur     = marker(node, _result._size, old.cur_depth + 1, node);
         return old;
     }
 
@@ -650,6 +653,7 @@ public:
             return;
 
         _result._buffer.unwind(_cur.unwind_pos);
+        _result._size = _cur.unwind_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
@@ -670,7 +674,7 @@ public:
 
         // Create a new container marker and activate it.
         auto old = LEXY_MOV(_cur);
-        _cur     = marker(unwind_pos, old.cur_depth);
+        _cur     = marker(unwind_pos, _result._size, old.cur_depth);
         return old;
     }
 
@@ -692,7 +696,7 @@ public:
 
         // Create a new container that will contain the production as its only child.
         // As such, it logically starts at the same position and depth as the current container.
-        auto new_container = marker(_cur.unwind_pos, _cur.cur_depth);
+        auto new_container = marker(_cur.unwind_pos, _cur.unwind_size, _cur.cur_depth);
         new_container.insert(node);
 
         // The production contains all the children.
@@ -734,6 +738,7 @@ public:
 
         // Deallocate everything we've inserted.
         _result._buffer.unwind(_cur.unwind_pos);
+        _result._size = _cur.unwind_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
-- 
2.43.0


From c5a6ffaf5db584bd0106c0fb59bd9f9047efd928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:40 +0000
Subject: [PATCH 15/47] fix: re-use all blocks of a parse_tree

When a tree that needed more than one block was re-used, growing it overwrote
the pointer to the existing blocks and leaked them.
---
 include/lexy/parse_tree.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 45a54c0..7bd6cf7 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -267,10 +267,12 @@ public:
     {
         if (remaining_capacity() < size)
         {
-            auto next        = block::allocate(_resource);
-            _cur_block->next = next;
-            _cur_block       = next;
-            _cur_pos         = &_cur_block->memory[0];
+            // After a reset(), there might already be a next block.
+            if (_cur_block->next == nullptr)
+                _cur_block->next = block::allocate(_resource);
+
+            _cur_block = _cur_block->next;
+            _cur_pos   = &_cur_block->memory[0];
         }
     }
 
-- 
2.43.0


From e0efaad1758acc23adc68d39b7e61262e7587edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:45 +0000
Subject: [PATCH 16/47] fix: don't overwrite a full block when a container is
 cancelled

If the container was started when the current block was completely full,
cancelling it continued at the beginning of the block, overwriting nodes that
are still in use.
---
 include/lexy/parse_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 7bd6cf7..76678ca 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -302,8 +302,9 @@ public:
         // Note: this is not guaranteed to work by the standard;
         // We'd have to go through std::less instead.
         // However, on all implementations I care about, std::less just does < anyway.
-        if (_cur_block->memory <= pos && pos < _cur_block->end())
+        if (_cur_block->memory <= pos && pos <= _cur_block->end())
             // We're still in the same block, just reset position.
+            // (The end is possible if the block was completely full.)
             _cur_pos = pos;
         else
             // Reset to the beginning of the current block only.
-- 
2.43.0


From e0a72c2dd5829c604ad48c3f428ede6ab2024272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:48 +0000
Subject: [PATCH 17/47] fix: don't allocate more than one first child pointer
 per production

Every empty container in a production without children allocated another
pointer without reserving memory for it, which overflowed the block.
---
 include/lexy/parse_tree.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 76678ca..0148916 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -665,13 +665,15 @@ public:
     marker start_container()
     {
         auto unwind_pos = _result._buffer.top();
-        if (_cur.prod && _cur.child_count == 0)
+        if (_cur.prod && unwind_pos == _cur.prod + 1)
         {
-            // If our parent production doesn't have any children,
+            // If nothing has been stored after our parent production yet,
             // we might need space for a first child pointer.
+            // start_production() already reserved memory for it.
             //
             // If our parent is another container, its start_container() function took care of it.
-            // If our parent already has a child, the first_child pointer is taken care of.
+            // If our parent already has a child or container, the first_child pointer is taken care
+            // of.
             _result._buffer.template allocate<_detail::pt_node<Reader>*>(nullptr);
         }
 
-- 
2.43.0


From 626c839f5d8dd8ffdfcd5553ba7ed3941d32ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:25 +0000
Subject: [PATCH 18/47] fix: don't search an error location from a later child
 production

---
 include/lexy/action/trace.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 540f72d..1378f22 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -330,6 +330,7 @@ public:
 
             // All events for the production are after the initial event.
             _previous_anchor.emplace(handler._anchor);
+            _anchor.emplace(loc.anchor());
             handler._anchor = loc.anchor();
         }
         void on(_th& handler, parse_events::production_finish, iterator pos)
@@ -380,7 +381,8 @@ public:
         template <typename Error>
         void on(_th& handler, parse_events::error, const Error& error)
         {
-            auto loc = handler.get_location(error.position());
+            // The error can be before the beginning of the last child production.
+            auto loc = get_input_location(*handler._input, error.position(), *_anchor);
             handler._writer.write_error(loc, error);
         }
 
@@ -408,6 +410,8 @@ public:
 
     private:
         production_info _info;
+        // The beginning of this production, all its errors are after that.
+        _detail::lazy_init<input_location_anchor<Input>> _anchor;
         // The beginning of the previous production.
         // If the current production gets canceled, it needs to be restored.
         _detail::lazy_init<input_location_anchor<Input>> _previous_anchor;
-- 
2.43.0


From ab281650d8084a157585a6bdbca82b6d22f3d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:03 +0000
Subject: [PATCH 19/47] fix: don't duplicate the tokens of a cancelled
 transparent production

---
 include/lexy/action/parse_as_tree.hpp | 5 ++++-
 include/lexy/action/validate.hpp      | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/lexy/action/parse_as_tree.hpp b/include/lexy/action/parse_as_tree.hpp
index 5c5bd9f..95a07ce 100644
--- a/include/lexy/action/parse_as_tree.hpp
+++ b/include/lexy/action/parse_as_tree.hpp
@@ -79,8 +79,11 @@ public:
                 // Cancelling the production removes all nodes from the tree.
                 // To ensure that the parse tree remains lossless, we add everything consumed by it
                 // as an error token.
+                // A transparent production does not have a node, so its tokens are still there.
                 handler._builder->cancel_production(LEXY_MOV(_marker));
-                handler._builder->token(lexy::error_token_kind, _validate.production_begin(), pos);
+                if (!_validate.is_transparent())
+                    handler._builder->token(lexy::error_token_kind, _validate.production_begin(),
+                                            pos);
             }
 
             _validate.on(handler._validate, ev, pos);
diff --git a/include/lexy/action/validate.hpp b/include/lexy/action/validate.hpp
index ed1a7a3..3adc3d3 100644
--- a/include/lexy/action/validate.hpp
+++ b/include/lexy/action/validate.hpp
@@ -236,6 +236,11 @@ public:
             return _begin;
         }
 
+        constexpr bool is_transparent() const
+        {
+            return _info.is_transparent;
+        }
+
         constexpr production_info get_info() const
         {
             auto cur = this;
-- 
2.43.0


From 2c96bfbbd40fd42112b9b7d63322d8c6d9471d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:00 +0000
Subject: [PATCH 20/47] fix: don't cancel a branch that has already been
 finished in list recovery

---
 include/lexy/dsl/list.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index f2f6885..12a8108 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -223,11 +223,13 @@ struct _lstt : rule_base
                         if constexpr (lexy::is_branch_rule<Item>)
                         {
                             lexy::branch_parser_for<Item, Reader> item{};
-                            if (item.try_parse(context.control_block, reader)
-                                && item.template finish<lexy::sink_parser>(context, reader, sink))
+                            if (item.try_parse(context.control_block, reader))
                             {
-                                // Continue after an item has been parsed.
-                                state = _state::terminator;
+                                // Continue after an item has been parsed, or recover from it.
+                                if (item.template finish<lexy::sink_parser>(context, reader, sink))
+                                    state = _state::terminator;
+                                else
+                                    state = _state::recovery;
                                 break;
                             }
                             else
-- 
2.43.0


From d2ec89face20f31d46b82ca0cf17bd1d5351c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:15 +0000
Subject: [PATCH 21/47] fix: allow tokens at a position that compares equal to
 a default constructed iterator

---
 include/lexy/parse_tree.hpp | 1 -
 include/lexy/token.hpp      | 4 +---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 0148916..fef65c9 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1093,7 +1093,6 @@ public:
         }
         auto end = _pt_node(sibling).position();
 
-        LEXY_PRECONDITION(begin == end || end != typename Reader::iterator());
         return lexy::lexeme<Reader>(begin, end);
     }
 
diff --git a/include/lexy/token.hpp b/include/lexy/token.hpp
index c08902e..ff52206 100644
--- a/include/lexy/token.hpp
+++ b/include/lexy/token.hpp
@@ -232,9 +232,7 @@ public:
 
     explicit constexpr token(token_kind<TokenKind> kind, lexy::lexeme<Reader> lex) noexcept
     : _lexeme(lex), _kind(kind)
-    {
-        LEXY_PRECONDITION(lex.begin() != iterator());
-    }
+    {}
     explicit constexpr token(token_kind<TokenKind> kind, iterator begin, iterator end) noexcept
     : token(kind, lexy::lexeme<Reader>(begin, end))
     {}
-- 
2.43.0


From f94cb9b9bd402ad76fc6faacb2572beb72ceb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:10 +0000
Subject: [PATCH 22/47] fix: don't skip over the limit of a delimited rule in
 SWAR inputs

---
 include/lexy/dsl/delimited.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/delimited.hpp b/include/lexy/dsl/delimited.hpp
index 82677b4..52fcf7a 100644
--- a/include/lexy/dsl/delimited.hpp
+++ b/include/lexy/dsl/delimited.hpp
@@ -216,7 +216,9 @@ struct _del : rule_base
         {
             // Parse as many content chars as possible.
             // If it returns, we need to look closer at the next char.
-            cur_chars.parse_swar(reader, Close{}, Escapes{}...);
+            // If we have a limit, we always need to look closer.
+            if constexpr (std::is_void_v<Limit>)
+                cur_chars.parse_swar(reader, Close{}, Escapes{}...);
 
             // Check for closing delimiter.
             if (close.try_parse(context.control_block, reader))
-- 
2.43.0


From c5737feaf1d962b5a4f41c7cbbadc707c6a7759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:59 +0000
Subject: [PATCH 23/47] fix: don't stop digits at a separator that follows a
 block of SWAR digits

---
 include/lexy/dsl/digit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/digit.hpp b/include/lexy/dsl/digit.hpp
index 7a21a9f..326b0c2 100644
--- a/include/lexy/dsl/digit.hpp
+++ b/include/lexy/dsl/digit.hpp
@@ -337,8 +337,12 @@ constexpr bool _match_digits_sep(Reader& reader)
             if constexpr (lexy::_detail::is_swar_reader<Reader>)
             {
                 using char_type = typename Reader::encoding::char_type;
-                while (Base::template swar_matches<char_type>(reader.peek_swar()))
+                if (Base::template swar_matches<char_type>(reader.peek_swar()))
+                {
                     reader.bump_swar();
+                    // The digits might be followed by a separator.
+                    continue;
+                }
             }
 
             if (!lexy::try_match_token(digit<Base>, reader))
-- 
2.43.0


From 87c42edd844f864621661ca2b8bc17aea501f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:55 +0000
Subject: [PATCH 24/47] fix: use the reader's character size for the index of a
 mismatched literal

---
 include/lexy/dsl/literal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index d57c189..11e6e6d 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -42,7 +42,8 @@ constexpr auto match_literal(Reader& reader)
         }
         else
         {
-            auto partial = swar_find_difference<CharT>(reader.peek_swar() & pack.mask, pack.value);
+            auto partial
+                = swar_find_difference<char_type>(reader.peek_swar() & pack.mask, pack.value);
             reader.bump_swar(partial);
             return false;
         }
-- 
2.43.0


From 812d091654c1c2a3767f6f08d25f4c959bec7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:15 +0000
Subject: [PATCH 25/47] fix: make rule_scanner::recursion_depth() usable

---
 include/lexy/dsl/scan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 652342c..63f4011 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -429,8 +429,8 @@ public:
 
     constexpr std::size_t recursion_depth() const noexcept
     {
-        auto& cb = _context->control_block();
-        return static_cast<std::size_t>(cb.cur_depth);
+        auto cb = _context->control_block;
+        return static_cast<std::size_t>(cb->cur_depth);
     }
 
     constexpr auto begin() const noexcept -> typename Reader::iterator
-- 
2.43.0


From 8d5d03d1e85dc59d258ff4a7fd0166066994a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:44 +0000
Subject: [PATCH 26/47] fix: leave the recursion depth of a failed recursive
 production

---
 include/lexy/dsl/production.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/production.hpp b/include/lexy/dsl/production.hpp
index 8e4b19f..85b7079 100644
--- a/include/lexy/dsl/production.hpp
+++ b/include/lexy/dsl/production.hpp
@@ -200,9 +200,15 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto outer_depth = context.control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
-            return _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+            if (_impl.template finish<depth>(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // The production might not have reached the end, so we're no longer nested.
+            context.control_block->cur_depth = outer_depth;
+            return false;
         }
     };
 
@@ -213,11 +219,16 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto outer_depth = context.control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
+            if (lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
+                                                                 LEXY_FWD(args)...))
+                return true;
 
-            return lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
-                                                                    LEXY_FWD(args)...);
+            // The production might not have reached the end, so we're no longer nested.
+            context.control_block->cur_depth = outer_depth;
+            return false;
         }
     };
 
-- 
2.43.0


From 0517006f459a02d011e6f009aeeb03afbec41740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 27/47] fix: restore automatic whitespace skipping when a
 no_whitespace rule fails or is nested

---
 include/lexy/action/base.hpp    | 16 ++++++++--------
 include/lexy/dsl/whitespace.hpp | 28 +++++++++++++++++++---------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/include/lexy/action/base.hpp b/include/lexy/action/base.hpp
index 3e57a6f..8f0a31e 100644
--- a/include/lexy/action/base.hpp
+++ b/include/lexy/action/base.hpp
@@ -74,14 +74,14 @@ namespace _detail
 
         parse_context_var_base* vars;
 
-        int  cur_depth, max_depth;
-        bool enable_whitespace_skipping;
+        int cur_depth, max_depth;
+        int no_whitespace_depth; // >0 if automatic whitespace skipping is disabled
 
         constexpr parse_context_control_block(Handler&& handler, State* state,
                                               std::size_t max_depth)
         : parse_handler(LEXY_MOV(handler)), parse_state(state), //
           vars(nullptr),                                        //
-          cur_depth(0), max_depth(static_cast<int>(max_depth)), enable_whitespace_skipping(true)
+          cur_depth(0), max_depth(static_cast<int>(max_depth)), no_whitespace_depth(0)
         {}
 
         template <typename OtherHandler>
@@ -89,16 +89,16 @@ namespace _detail
                                               parse_context_control_block<OtherHandler, State>* cb)
         : parse_handler(LEXY_MOV(handler)), parse_state(cb->parse_state), //
           vars(cb->vars), cur_depth(cb->cur_depth), max_depth(cb->max_depth),
-          enable_whitespace_skipping(cb->enable_whitespace_skipping)
+          no_whitespace_depth(cb->no_whitespace_depth)
         {}
 
         template <typename OtherHandler>
         constexpr void copy_vars_from(parse_context_control_block<OtherHandler, State>* cb)
         {
-            vars                       = cb->vars;
-            cur_depth                  = cb->cur_depth;
-            max_depth                  = cb->max_depth;
-            enable_whitespace_skipping = cb->enable_whitespace_skipping;
+            vars                = cb->vars;
+            cur_depth           = cb->cur_depth;
+            max_depth           = cb->max_depth;
+            no_whitespace_depth = cb->no_whitespace_depth;
         }
     };
 } // namespace _detail
diff --git a/include/lexy/dsl/whitespace.hpp b/include/lexy/dsl/whitespace.hpp
index 171df52..87f5854 100644
--- a/include/lexy/dsl/whitespace.hpp
+++ b/include/lexy/dsl/whitespace.hpp
@@ -178,7 +178,7 @@ struct automatic_ws_parser
     LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
     {
         if (!std::is_base_of_v<disable_whitespace_skipping, NextParser> //
-            && context.control_block->enable_whitespace_skipping)
+            && context.control_block->no_whitespace_depth == 0)
         {
             using whitespace = lexy::production_whitespace<typename Context::production,
                                                            typename Context::whitespace_production>;
@@ -243,8 +243,8 @@ struct _wsn : _copy_base<Rule>
         template <typename Context, typename Reader, typename... Args>
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
-            // Enable automatic whitespace skipping again.
-            context.control_block->enable_whitespace_skipping = true;
+            // Enable automatic whitespace skipping again, unless we're nested.
+            --context.control_block->no_whitespace_depth;
             // And skip whitespace once.
             return lexy::whitespace_parser<Context, NextParser>::parse(context, reader,
                                                                        LEXY_FWD(args)...);
@@ -271,11 +271,16 @@ struct _wsn : _copy_base<Rule>
         }
 
         template <typename NextParser, typename Context, typename... Args>
-        LEXY_PARSER_FUNC auto finish(Context& context, Reader& reader, Args&&... args)
+        LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
             // Finish the rule with whitespace skipping disabled.
-            context.control_block->enable_whitespace_skipping = false;
-            return rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            auto outer_depth = context.control_block->no_whitespace_depth++;
+            if (rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // We might not have reached the end of the rule, restore the mode.
+            context.control_block->no_whitespace_depth = outer_depth;
+            return false;
         }
     };
 
@@ -296,9 +301,14 @@ struct _wsn : _copy_base<Rule>
             else
             {
                 // Parse the rule with whitespace skipping disabled.
-                context.control_block->enable_whitespace_skipping = false;
-                using parser = lexy::parser_for<Rule, _pc<NextParser>>;
-                return parser::parse(context, reader, LEXY_FWD(args)...);
+                auto outer_depth = context.control_block->no_whitespace_depth++;
+                using parser     = lexy::parser_for<Rule, _pc<NextParser>>;
+                if (parser::parse(context, reader, LEXY_FWD(args)...))
+                    return true;
+
+                // We might not have reached the end of the rule, restore the mode.
+                context.control_block->no_whitespace_depth = outer_depth;
+                return false;
             }
         }
     };
-- 
2.43.0


From b0fcfb8b0ddb5da8c21803c9711091fc312dfb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:30 +0000
Subject: [PATCH 28/47] fix: don't retry an item that consumed nothing during
 the recovery of a list

---
 include/lexy/dsl/list.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index 12a8108..bf1504e 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -182,9 +182,11 @@ struct _lstt : rule_base
         recovery,
     };
 
+    // item_pos is the position where the most recent item started.
     template <typename TermParser, typename Context, typename Reader, typename Sink>
     LEXY_PARSER_FUNC static bool _loop(_state initial_state, TermParser& term, Context& context,
-                                       Reader& reader, Sink& sink)
+                                       Reader& reader, Sink& sink,
+                                       typename Reader::iterator item_pos)
     {
         auto state = initial_state;
 
@@ -288,6 +290,7 @@ struct _lstt : rule_base
                 break;
 
             case _state::item:
+                item_pos = reader.position();
                 if (lexy::parser_for<Item, lexy::sink_parser>::parse(context, reader, sink))
                 {
                     // Loop back.
@@ -345,13 +348,20 @@ struct _lstt : rule_base
                     // "beginning of the next one".
                     else if constexpr (lexy::is_branch_rule<Item>)
                     {
+                        // If an item failed without consuming anything, we must not parse it at
+                        // the same position again: it would fail forever.
                         lexy::branch_parser_for<Item, Reader> item{};
-                        if (item.try_parse(context.control_block, reader))
+                        if (reader.position() == item_pos)
+                        {
+                            // Skip at least one code unit.
+                        }
+                        else if (item.try_parse(context.control_block, reader))
                         {
                             auto recovery_end = reader.position();
                             context.on(_ev::token{}, lexy::error_token_kind, recovery_begin,
                                        recovery_end);
                             context.on(_ev::recovery_finish{}, recovery_end);
+                            item_pos = recovery_end;
 
                             if (item.template finish<lexy::sink_parser>(context, reader, sink))
                             {
@@ -424,10 +434,12 @@ struct _lstt : rule_base
 
             // Parse initial item.
             using item_parser = lexy::parser_for<Item, lexy::sink_parser>;
+            auto item_pos     = reader.position();
             auto result       = item_parser::parse(context, reader, sink);
 
             // Parse the remaining items.
-            if (!_loop(result ? _state::terminator : _state::recovery, term, context, reader, sink))
+            if (!_loop(result ? _state::terminator : _state::recovery, term, context, reader, sink,
+                       item_pos))
                 return false;
 
             // At this point, we just need to finish parsing the terminator.
-- 
2.43.0


From 4023255c98b8d1d1975796ef42a19f55fa691a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:11 +0000
Subject: [PATCH 29/47] fix: give a root production without children a position
 token

---
 include/lexy/action/parse_as_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/lexy/action/parse_as_tree.hpp b/include/lexy/action/parse_as_tree.hpp
index 95a07ce..f46f572 100644
--- a/include/lexy/action/parse_as_tree.hpp
+++ b/include/lexy/action/parse_as_tree.hpp
@@ -61,13 +61,13 @@ public:
 
         void on(_pth& handler, parse_events::production_finish ev, iterator pos)
         {
+            // Ensure that every production node, including the root, has at least one child.
+            if (handler._builder->current_child_count() == 0)
+                handler._builder->token(lexy::position_token_kind, _validate.production_begin(),
+                                        _validate.production_begin());
+
             if (--handler._depth > 0)
-            {
-                if (handler._builder->current_child_count() == 0)
-                    handler._builder->token(lexy::position_token_kind, _validate.production_begin(),
-                                            _validate.production_begin());
                 handler._builder->finish_production(LEXY_MOV(_marker));
-            }
 
             _validate.on(handler._validate, ev, pos);
         }
-- 
2.43.0


From c875ae770545c3e75fc21ad2165a570c3b373f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:01 +0000
Subject: [PATCH 30/47] fix: don't terminate when moving a parsed value throws

---
 include/lexy/_detail/lazy_init.hpp | 5 +++--
 include/lexy/action/parse.hpp      | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lexy/_detail/lazy_init.hpp b/include/lexy/_detail/lazy_init.hpp
index 2e2cd21..f2850a3 100644
--- a/include/lexy/_detail/lazy_init.hpp
+++ b/include/lexy/_detail/lazy_init.hpp
@@ -61,7 +61,7 @@ struct _lazy_init_storage_non_trivial
     }
 
     LEXY_CONSTEXPR_DTOR _lazy_init_storage_non_trivial(
-        _lazy_init_storage_non_trivial&& other) noexcept
+        _lazy_init_storage_non_trivial&& other) noexcept(std::is_nothrow_move_constructible_v<T>)
     : _init(other._init), _empty()
     {
         if (_init)
@@ -69,7 +69,8 @@ struct _lazy_init_storage_non_trivial
     }
 
     LEXY_CONSTEXPR_DTOR _lazy_init_storage_non_trivial& operator=(
-        _lazy_init_storage_non_trivial&& other) noexcept
+        _lazy_init_storage_non_trivial&& other) noexcept(std::is_nothrow_move_constructible_v<T>
+                                                         && std::is_nothrow_move_assignable_v<T>)
     {
         if (_init && other._init)
             _value = LEXY_MOV(other._value);
diff --git a/include/lexy/action/parse.hpp b/include/lexy/action/parse.hpp
index b001222..1e8ea49 100644
--- a/include/lexy/action/parse.hpp
+++ b/include/lexy/action/parse.hpp
@@ -76,9 +76,9 @@ public:
     }
 
 private:
-    constexpr explicit parse_result(_impl_t&& impl) noexcept : _impl(LEXY_MOV(impl)), _value() {}
+    constexpr explicit parse_result(_impl_t&& impl) : _impl(LEXY_MOV(impl)), _value() {}
     template <typename U>
-    constexpr explicit parse_result(_impl_t&& impl, U&& v) noexcept : _impl(LEXY_MOV(impl))
+    constexpr explicit parse_result(_impl_t&& impl, U&& v) : _impl(LEXY_MOV(impl))
     {
         LEXY_PRECONDITION(impl.is_success() || impl.is_recovered_error());
         _value.emplace(LEXY_FWD(v));
-- 
2.43.0


From 269b9ccfec39873f2d113f3971f1e40c7ea6f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:01 +0000
Subject: [PATCH 31/47] fix: don't terminate when an event handler throws at
 the start of a scanner's recovery

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 63f4011..a59bd03 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -288,7 +288,7 @@ public:
         }
 
     private:
-        constexpr explicit error_recovery_guard(scanner& self) noexcept : _self(&self)
+        constexpr explicit error_recovery_guard(scanner& self) : _self(&self)
         {
             auto& context = static_cast<Derived&>(*_self).context();
             context.on(parse_events::recovery_start{}, _self->_reader.position());
-- 
2.43.0


From f54895dfcced9295a14001fdf2a54b2658e0ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:37 +0000
Subject: [PATCH 32/47] fix: scan_result constructed from an lvalue must not
 move from it

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index a59bd03..e9ef10d 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -52,7 +52,7 @@ public:
     template <typename U = T, typename = std::enable_if_t<std::is_constructible_v<T, U>>>
     constexpr scan_result(U&& value)
     {
-        _value.emplace(LEXY_MOV(value));
+        _value.emplace(LEXY_FWD(value));
     }
 
     constexpr explicit operator bool() const noexcept
-- 
2.43.0


From e4c10479df46f7a85694edc3028fc190a0bad585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:01 +0000
Subject: [PATCH 33/47] fix: a parse that fails without an error is not a
 success

---
 include/lexy/action/validate.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lexy/action/validate.hpp b/include/lexy/action/validate.hpp
index 3adc3d3..181bf4e 100644
--- a/include/lexy/action/validate.hpp
+++ b/include/lexy/action/validate.hpp
@@ -96,12 +96,13 @@ private:
     constexpr explicit validate_result(bool did_recover, error_type&& error)
     : _error(LEXY_MOV(error)), _status()
     {
-        if (error_count() == 0u)
+        // A parse can fail without an error, e.g. if a scan function only returns scan_failed.
+        if (!did_recover)
+            _status = _status_fatal;
+        else if (error_count() == 0u)
             _status = _status_success;
-        else if (did_recover)
-            _status = _status_recovered;
         else
-            _status = _status_fatal;
+            _status = _status_recovered;
     }
 
     error_type _error;
-- 
2.43.0


From 10f64fdc2b159844791fe3b549c3197d2db552ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:13 +0000
Subject: [PATCH 34/47] fix: advance the output iterator past every color code

---
 include/lexy/visualize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f553087..f334821 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -155,7 +155,7 @@ constexpr OutIt write_color(OutIt out, visualization_options opts)
         return out;
     };
     out = write_code(out, int(CodeHead));
-    ((*out++ = ';', write_code(out, int(CodeTail))), ...);
+    ((*out++ = ';', out = write_code(out, int(CodeTail))), ...);
 
     *out++ = 'm';
     return out;
-- 
2.43.0


From ee1fdb5f34af0a0ab21b05769b4ab24f617dbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:06 +0000
Subject: [PATCH 35/47] fix: don't report a grammar start and finish for a
 subgrammar

---
 include/lexy/action/base.hpp    | 22 +++++++++++++++-------
 include/lexy/dsl/subgrammar.hpp |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/lexy/action/base.hpp b/include/lexy/action/base.hpp
index 8f0a31e..08c252c 100644
--- a/include/lexy/action/base.hpp
+++ b/include/lexy/action/base.hpp
@@ -198,10 +198,10 @@ namespace lexy
 {
 constexpr void* no_parse_state = nullptr;
 
+// Parses the entry production of a grammar or subgrammar.
 template <typename Handler, typename State, typename Production, typename Reader>
-constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
+constexpr auto _do_production(_pc<Handler, State, Production>& context, Reader& reader)
 {
-    context.on(parse_events::grammar_start{}, reader.position());
     context.on(parse_events::production_start{}, reader.position());
 
     // We parse whitespace, theen the rule, then finish.
@@ -211,15 +211,23 @@ constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& read
     auto rule_result = parser::parse(context, reader);
 
     if (rule_result)
-    {
         context.on(parse_events::production_finish{}, reader.position());
-        context.on(parse_events::grammar_finish{}, reader);
-    }
     else
-    {
         context.on(parse_events::production_cancel{}, reader.position());
+
+    return rule_result;
+}
+
+template <typename Handler, typename State, typename Production, typename Reader>
+constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
+{
+    context.on(parse_events::grammar_start{}, reader.position());
+
+    auto rule_result = _do_production(context, reader);
+    if (rule_result)
+        context.on(parse_events::grammar_finish{}, reader);
+    else
         context.on(parse_events::grammar_cancel{}, reader);
-    }
 
     return rule_result;
 }
diff --git a/include/lexy/dsl/subgrammar.hpp b/include/lexy/dsl/subgrammar.hpp
index 6a291df..926848c 100644
--- a/include/lexy/dsl/subgrammar.hpp
+++ b/include/lexy/dsl/subgrammar.hpp
@@ -42,7 +42,7 @@ using _subgrammar_for = _subgrammar<Production, typename Action::handler, typena
               Reader&                                                       reader)                \
     {                                                                                              \
         lexy::_pc<Handler, State, Production> context(control_block);                              \
-        auto                                  success = ::lexy::_do_action(context, reader);       \
+        auto                                  success = ::lexy::_do_production(context, reader);   \
         value                                         = LEXY_MOV(context.value);                   \
         return success;                                                                            \
     }
-- 
2.43.0


From 61512c73fd9b8d57fa69a93fad2f54f4cbf96313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 36/47] fix: decode UTF-16 surrogate pairs beyond U+1FFFF

---
 include/lexy/_detail/code_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index 88e7aa0..e0c581c 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -296,7 +296,7 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             auto result = char32_t(first & payload1);
             result <<= 10;
             result |= char32_t(second & payload2);
-            result |= 0x10000;
+            result += 0x10000;
             return {result, cp_error::success, reader.current()};
         }
         else if ((first & ~payload2) == pattern2)
-- 
2.43.0


From 55aa96567ece364d1ffd222bae0fb08124fbc9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:50 +0000
Subject: [PATCH 37/47] fix: don't skip a case folded delimiter or escape

---
 include/lexy/dsl/delimited.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/delimited.hpp b/include/lexy/dsl/delimited.hpp
index 52fcf7a..3cba5e9 100644
--- a/include/lexy/dsl/delimited.hpp
+++ b/include/lexy/dsl/delimited.hpp
@@ -26,6 +26,17 @@ struct missing_delimiter
 
 namespace lexyd
 {
+// Whether the rule is a literal that always begins with its first character.
+// This is not the case for a case folded one.
+template <typename Rule>
+constexpr bool _del_literal_first_char()
+{
+    if constexpr (lexy::is_literal_rule<Rule>)
+        return std::is_void_v<typename Rule::lit_case_folding>;
+    else
+        return false;
+}
+
 template <typename CharClass, typename Reader>
 struct _del_chars
 {
@@ -58,7 +69,7 @@ struct _del_chars
         // we can munch as much content as possible in a fast loop.
         // We also need to efficiently check for the CharClass for it to make sense.
         if constexpr (lexy::_detail::is_swar_reader<Reader> //
-                      && (lexy::is_literal_rule<Close> && ... && Escs::esc_is_literal)
+                      && (_del_literal_first_char<Close>() && ... && Escs::esc_is_literal)
                       && !std::is_same_v<
                           decltype(CharClass::template char_class_match_swar<encoding>({})),
                           std::false_type>)
@@ -369,7 +380,7 @@ namespace lexyd
 template <typename Escape, typename... Branches>
 struct _escape : _escape_base
 {
-    static constexpr bool esc_is_literal = lexy::is_literal_rule<Escape>;
+    static constexpr bool esc_is_literal = _del_literal_first_char<Escape>();
     template <typename Encoding>
     static constexpr auto esc_first_char() -> typename Encoding::char_type
     {
-- 
2.43.0


From 5d1b71327f41b6490ddf6938bdfab10b897e0818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 38/47] fix: don't assert that a file hasn't grown while
 reading it with C I/O

---
 src/input/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input/file.cpp b/src/input/file.cpp
index e3f4adc..90a9465 100644
--- a/src/input/file.cpp
+++ b/src/input/file.cpp
@@ -194,7 +194,7 @@ lexy::file_error lexy::_detail::read_file(const char* path, file_callback cb, vo
     lexy::buffer<>::builder builder{std::size_t(size)};
     if (std::fread(builder.data(), sizeof(char), builder.size(), file) != builder.size())
         return lexy::file_error::os_error;
-    LEXY_ASSERT(std::fgetc(file) == EOF, "we haven't read everything?!");
+    // If the file has grown in the meantime, we've read what was there when we've asked for its size.
 
     // Pass to callback.
     // Note that this isn't ideal, as we're having one unnecessary copy plus allocation.
-- 
2.43.0


From aced59b4d041a61b12604547dfae056ee7a62c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 39/47] fix: siblings() of the root node is empty

---
 include/lexy/parse_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index fef65c9..d1a917b 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1025,6 +1025,10 @@ public:
 
         iterator begin() const noexcept
         {
+            // The next node of the root is the remaining input, which isn't a sibling.
+            if (_pt_node(_node).kind().is_root())
+                return end();
+
             // We begin with the next node after ours.
             // If we don't have siblings, this is our node itself.
             return ++iterator(_node);
-- 
2.43.0


From c89badedf1a2c8d096030d5b4cc66374d0725195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 40/47] fix: compare the kinds of a token and a production node

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index d1a917b..9384822 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -828,8 +828,10 @@ public:
     {
         if (lhs.is_token() && rhs.is_token())
             return lhs._ptr->as_token()->kind == rhs._ptr->as_token()->kind;
-        else
+        else if (lhs.is_production() && rhs.is_production())
             return lhs._ptr->as_production()->id == rhs._ptr->as_production()->id;
+        else
+            return false;
     }
     friend bool operator!=(_pt_node_kind lhs, _pt_node_kind rhs)
     {
-- 
2.43.0


From bfb524c531c5dc92e5831e0a7de09114ff02b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:56 +0000
Subject: [PATCH 41/47] fix: make an empty parse_tree_input constructible and
 readable

---
 include/lexy/input/parse_tree_input.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/lexy/input/parse_tree_input.hpp b/include/lexy/input/parse_tree_input.hpp
index 1ebae69..c2bffd5 100644
--- a/include/lexy/input/parse_tree_input.hpp
+++ b/include/lexy/input/parse_tree_input.hpp
@@ -83,13 +83,18 @@ public:
 
         constexpr iterator position() const noexcept
         {
-            return _cur == _parse_tree_eof{} ? _traits::position_end(_parent)
-                                             : _traits::position_begin(_cur);
+            if (_cur != _parse_tree_eof{})
+                return _traits::position_begin(_cur);
+            else if (_parent != _parse_tree_eof{})
+                return _traits::position_end(_parent);
+            else
+                return iterator();
         }
     };
 
     constexpr explicit _ptr(const Node& root) noexcept
-    : _parent(root), _cur(_traits::first_child(root))
+    : _parent(root),
+      _cur(root == _parse_tree_eof{} ? _traits::null() : _traits::first_child(root))
     {}
 
     constexpr _ptr child_reader() const& noexcept
@@ -140,7 +145,7 @@ public:
     using value_type = Node;
 
     //=== constructors ===//
-    constexpr parse_tree_input() noexcept : _root(nullptr) {}
+    constexpr parse_tree_input() noexcept : _root(parse_tree_input_traits<Node>::null()) {}
 
     constexpr explicit parse_tree_input(Node root) noexcept : _root(LEXY_MOV(root)) {}
 
-- 
2.43.0


From 38abb5c5d96e2179b540f03bbadd52f6472cf6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:55 +0000
Subject: [PATCH 42/47] fix: use the options when visualizing a lexeme of a
 parse_tree_input

---
 include/lexy/visualize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f334821..dc8d50d 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -481,7 +481,8 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
         // Visualize as an iterator range of characters.
         lexy::range_input<typename encoding::char_encoding, typename Reader::iterator>
             input(lexeme.begin(), lexeme.end());
-        return visualize_to(out, lexy::lexeme_for<decltype(input)>(input.begin(), input.end()));
+        return visualize_to(out, lexy::lexeme_for<decltype(input)>(input.begin(), input.end()),
+                            opts);
     }
     else
     {
-- 
2.43.0


From 3bbef8e6cf2e6c4de601ab000942bcb8f0f55ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:56 +0000
Subject: [PATCH 43/47] fix: write the complete location in traces of big
 inputs

---
 include/lexy/action/trace.hpp | 3 ++-
 include/lexy/visualize.hpp    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 1378f22..2b46e99 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -266,7 +266,8 @@ private:
             *_out++ = '\n';
 
         _out = _detail::write_color<_detail::color::faint>(_out, _opts);
-        _out = _detail::write_format(_out, "%2u:%3u", loc.line_nr(), loc.column_nr());
+        // Two unsigned integers of up to ten digits and the colon.
+        _out = _detail::write_format<21>(_out, "%2u:%3u", loc.line_nr(), loc.column_nr());
         _out = _detail::write_str(_out, ": ");
         _out = _detail::write_color<_detail::color::reset>(_out, _opts);
 
diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index dc8d50d..2356881 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -109,7 +109,7 @@ template <int N = 16, typename OutIt, typename... Args>
 constexpr OutIt write_format(OutIt out, const char* fmt, const Args&... args)
 {
     char buffer[std::size_t(N + 1)];
-    auto count = std::snprintf(buffer, N, fmt, args...);
+    auto count = std::snprintf(buffer, sizeof(buffer), fmt, args...);
     LEXY_ASSERT(count <= N, "buffer not big enough");
 
     for (auto i = 0; i != count; ++i)
-- 
2.43.0


From b13265316073c102153cce206c50fc26782615e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 44/47] fix: match case folded literal sets and symbols in
 UTF-8 and UTF-16

---
 include/lexy/dsl/case_folding.hpp | 3 ++-
 include/lexy/dsl/literal.hpp      | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c01f50b..f2ad0d7 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -258,9 +258,10 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
         //    However, that's not really something we should worry about.
         return _cur_pos;
     }
-    constexpr void reset(marker m) noexcept
+    constexpr void reset(marker m)
     {
         _impl.reset(m);
+        _fill();
     }
 };
 
diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index 11e6e6d..93bf4f2 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -256,7 +256,9 @@ struct lit_trie_matcher<Trie, CurNode>
             return false;
 
         reader.bump();
-        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::try_match(reader);
+        // The reader is already case folded, so don't do it again.
+        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::template _impl<>::try_match(
+            reader);
         return true;
     }
 
-- 
2.43.0


From 1fc1ccb736e2a58bc0ff0b3b939eb35503626e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 45/47] fix: find a reserved suffix that overlaps another match

---
 include/lexy/dsl/identifier.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/lexy/dsl/identifier.hpp b/include/lexy/dsl/identifier.hpp
index 906e132..af2fe96 100644
--- a/include/lexy/dsl/identifier.hpp
+++ b/include/lexy/dsl/identifier.hpp
@@ -125,10 +125,17 @@ struct _idsp // reserve suffix predicate
         auto reader = input.reader();
         while (true)
         {
-            if (lexy::try_match_token(Set{}, reader)
-                && reader.peek() == decltype(reader)::encoding::eof())
-                return true;
-            else if (reader.peek() == decltype(reader)::encoding::eof())
+            auto cur = reader.current();
+            if (lexy::try_match_token(Set{}, reader))
+            {
+                if (reader.peek() == decltype(reader)::encoding::eof())
+                    return true;
+
+                // It's not a suffix here, but another (overlapping) match can still be one.
+                reader.reset(cur);
+            }
+
+            if (reader.peek() == decltype(reader)::encoding::eof())
                 return false;
             else
                 reader.bump();
-- 
2.43.0


From 08a7be1e93c75b993b9ddfdbc529731fb4fb82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 46/47] fix: don't report an integer overflow for trailing
 non-digits

---
 include/lexy/dsl/integer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index efa34d1..42783e9 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -338,6 +338,12 @@ struct _bounded_integer_parser
 
         // If we've reached this point, we've parsed the maximal number of digits allowed.
         // Now we can only overflow if there are still digits left.
+        if constexpr (!AssumeOnlyDigits)
+        {
+            // Skip trailing characters that aren't digits.
+            while (cur != end && Base::digit_value(*cur) >= Base::digit_radix)
+                ++cur;
+        }
         return {value, cur != end};
     }
 };
-- 
2.43.0


From a8dcf4bc85e3d95d7804e99f194e0480bc19c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 47/47] fix: construct an operator's tag from the state and the
 position

---
 include/lexy/dsl/operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/operator.hpp b/include/lexy/dsl/operator.hpp
index a783c01..fc2f49b 100644
--- a/include/lexy/dsl/operator.hpp
+++ b/include/lexy/dsl/operator.hpp
@@ -122,7 +122,8 @@ struct _op : branch_base
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor_with_state, op_tag_type,
                                                       Reader, Context>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
-                                       op_tag_type(*context.control_block->parse_state, op.pos));
+                                       op_tag_type(*context.control_block->parse_state,
+                                                   op.cur.position()));
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor, op_tag_type, Reader>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
                                        op_tag_type(op.cur.position()));
-- 
2.43.0

