From af5552e53ddb33d7d56f111f6b0a0509c5231af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:13 +0000
Subject: [PATCH 1/9] fix: WriteBufferFixedSize::push(bytes, length) accepts an
 exact fit and no longer wraps

The check BUFFER_SIZE > write_index_ + length rejected data that exactly fills
the buffer and, for a length close to 2^32, wrapped around and let memcpy write
past the array.
---
 src/WriteBufferFixedSize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 6e0fc83..990ad0d 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -85,7 +85,7 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::WriteBufferInterface::push()
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
-        bool return_value = BUFFER_SIZE > (write_index_ + length);
+        bool return_value = length <= (BUFFER_SIZE - write_index_);
         if(return_value)
         {
           memcpy(data_.data() + write_index_, bytes, length);
-- 
2.43.0


From 1c8de2444f20a2ff7e4a45aef9d9dde579752941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:19 +0000
Subject: [PATCH 2/9] fix: ReadBufferFixedSize::advance(N) saturates at the end
 and no longer wraps

A large N (the length of an unknown field is read from the wire) made
read_index_ + N wrap, moving the read index backwards, which lets a message make
deserialize() loop forever. An N beyond the end left the read index in place
instead of limiting the advance to the bytes in the buffer.
---
 src/ReadBufferFixedSize.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index ed38e9e..b64cf0b 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -88,12 +88,10 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::advance(const uint32_t N)
       bool advance(const uint32_t N) override
       {
-        const uint32_t new_read_index = read_index_ + N;
-        const bool return_value = write_index_ >= new_read_index;
-        if(return_value)
-        {
-          read_index_ = new_read_index;
-        }
+        const uint32_t n_bytes_left = (write_index_ > read_index_) ? (write_index_ - read_index_) : 0;
+        const bool return_value = n_bytes_left >= N;
+        // As documented in the interface the advance is limited to the number of bytes in the buffer.
+        read_index_ += return_value ? N : n_bytes_left;
         return return_value;
       }
 
-- 
2.43.0


From 460736824b0d13634e1885e285f9fefa7835d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:21 +0000
Subject: [PATCH 3/9] fix: ReadBufferSection::advance(n) returns false when the
 section holds less than n bytes

It returned true for an n beyond the end of a non empty section and false for
zero bytes on an empty section, against the documentation of the interface.
---
 src/ReadBufferSection.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index c0c09a9..bbd20ed 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -77,11 +77,12 @@ namespace EmbeddedProto
 
   bool ReadBufferSection::advance(const uint32_t n_bytes)
   {
-    bool result = 0 < size_;
-    if(result) 
+    // Only when the section holds all the bytes asked for is the advance a success.
+    bool result = n_bytes <= size_;
+    const uint32_t n = result ? n_bytes : size_;
+    if(0 < n) 
     {
-      uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
-      result = buffer_.advance(n);
+      result = buffer_.advance(n) && result;
       size_ -= n;
     }
     return result;
-- 
2.43.0


From 30b55cb0b42a36bc6218740748626320c08f953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:34 +0000
Subject: [PATCH 4/9] fix: report END_OF_BUFFER for an embedded message which
 is cut short

An embedded message, single or repeated, of which the announced length exceeds
the available data was accepted with NO_ERRORS when the data ended between two
of its fields. A section also counted bytes as read which the underlying buffer
did not provide.
---
 src/MessageInterface.cpp  | 6 ++++++
 src/ReadBufferSection.cpp | 5 ++++-
 src/RepeatedField.h       | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index db9b4b6..9e9620e 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -85,6 +85,12 @@ namespace EmbeddedProto
       {
         return_value = deserialize(bufferSection);
       }
+      // The data ended before all the announced bytes of this message were read.
+      if((::EmbeddedProto::Error::NO_ERRORS == return_value) &&
+         ((size > bufferSection.get_max_size()) || (0 < bufferSection.get_size())))
+      {
+        return_value = ::EmbeddedProto::Error::END_OF_BUFFER;
+      }
     }
     return return_value;
   }
diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index bbd20ed..05c31fc 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -94,7 +94,10 @@ namespace EmbeddedProto
     if(result)
     {
       result = buffer_.pop(byte);
-      --size_;
+      if(result)
+      {
+        --size_;
+      }
     }
     return result;
   }
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d6ea279..c006cf9 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -380,6 +380,12 @@ namespace EmbeddedProto
             {
               ReadBufferSection bufferSection(buffer, size);
               return_value = this->get(index).deserialize(bufferSection);
+              // The data ended before all the announced bytes of this message were read.
+              if((Error::NO_ERRORS == return_value) &&
+                 ((size > bufferSection.get_max_size()) || (0 < bufferSection.get_size())))
+              {
+                return_value = Error::END_OF_BUFFER;
+              }
             }
           }
           else 
-- 
2.43.0


From 38e641786b9589f3360151b287252318008efdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:46 +0000
Subject: [PATCH 5/9] fix: report a bad length or a cut short element in a
 packed repeated field

The error of reading the length was overwritten, and the END_OF_BUFFER of an
element which is cut short by the end of the field or of the data was taken for
the normal end of the field.
---
 src/RepeatedField.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index c006cf9..3892036 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -342,20 +342,19 @@ namespace EmbeddedProto
         ReadBufferSection bufferSection(buffer, size);
         DATA_TYPE x;
         
-        return_value = x.deserialize(bufferSection);
-        while(Error::NO_ERRORS == return_value)
+        while((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
         {
-          return_value = this->add(x);
+          return_value = x.deserialize(bufferSection);
           if(Error::NO_ERRORS == return_value)
           {
-            return_value = x.deserialize(bufferSection);
+            return_value = this->add(x);
           }
         }
 
-        // We expect the buffersection to be empty, in that case everything is fine..
-        if(Error::END_OF_BUFFER == return_value)
+        // The data ended before all the announced bytes of this field were read.
+        if((Error::NO_ERRORS == return_value) && (size > bufferSection.get_max_size()))
         {
-          return_value = Error::NO_ERRORS;
+          return_value = Error::END_OF_BUFFER;
         }
 
         return return_value;
-- 
2.43.0


From 40d65d97f8376e0fe6eead32b49371afd06ef945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:58 +0000
Subject: [PATCH 6/9] fix: do not merge old data into a newly received repeated
 message element

Assigning a shorter array, or set_data() with fewer elements, leaves the old
elements in place beyond the length. A message received later was merged into
such an element instead of into an empty one.
---
 src/RepeatedField.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 3892036..3fb5fef 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -378,6 +378,8 @@ namespace EmbeddedProto
             if(Error::NO_ERRORS == return_value) 
             {
               ReadBufferSection bufferSection(buffer, size);
+              // The element may hold data from before the array was shortened.
+              this->get(index).clear();
               return_value = this->get(index).deserialize(bufferSection);
               // The data ended before all the announced bytes of this message were read.
               if((Error::NO_ERRORS == return_value) &&
-- 
2.43.0


From 60c340a3cad7c19b134b8ad2ab02917f22f7d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:30 +0000
Subject: [PATCH 7/9] fix: read a bool as a varint

Only one byte was taken from the buffer. A bool encoded in more bytes left the
remaining bytes in the buffer, to be read as the tag of the next field.
---
 src/WireFormatter.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6db0422..4134093 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -483,15 +483,12 @@ namespace EmbeddedProto
 
       static Error DeserializeBool(ReadBufferInterface& buffer, bool& value) 
       {
-        uint8_t byte;
-        Error result = Error::NO_ERRORS;
-        if(buffer.pop(byte))
-        {
-          value = static_cast<bool>(byte);
-        }
-        else 
+        // On the wire a bool is a varint, which may take more than one byte.
+        uint64_t uint_value64;
+        Error result = DeserializeVarint(buffer, uint_value64);
+        if(Error::NO_ERRORS == result)
         {
-          result = Error::END_OF_BUFFER;
+          value = (0 != uint_value64);
         }
         return result;
       }
-- 
2.43.0


From 41ab157ba28c462653100fc1698dd89138d258e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:47 +0000
Subject: [PATCH 8/9] fix: reject an unknown field with a group wire type

DeserializeTag lets the deprecated wire types 3 and 4 pass. Nothing was skipped
for such a field and the content of the group was read as fields of this message.
---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 9e9620e..5f33b93 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -120,7 +120,8 @@ namespace EmbeddedProto
         break;
 
       default:
-        // We should never get here. DeserializeTag catches this case.
+        // The deprecated groups are not supported and cannot be skipped.
+        return_value = Error::INVALID_WIRETYPE;
         break;
     }
 
-- 
2.43.0


From 2654bf58c700b955de3f15860063e686fb5a08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:09 +0000
Subject: [PATCH 9/9] fix: keep to_string inside the character array when the
 text does not fit

snprintf returns the length of the whole text, also when it was cut short; the
view was moved beyond the end of the array and its size wrapped around. A
string which fills its array has no terminating zero, limit what is printed.
---
 .../EmbeddedProto/templates/TypeDefMsg.h      |  9 +++------
 src/Defines.h                                 | 15 +++++++++++++++
 src/FieldStringBytes.h                        | 19 +++++++------------
 src/Fields.h                                  |  9 +++------
 src/RepeatedField.h                           |  9 +++------
 5 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 6c7b0c9..ada992e 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -289,8 +289,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
         }
       }
 
@@ -319,8 +318,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
       }
 
       {% for field in typedef.fields %}
@@ -342,8 +340,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
 
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
       }
 
       return left_chars;
diff --git a/src/Defines.h b/src/Defines.h
index 6c86ed0..d3258ff 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -83,6 +83,21 @@ namespace EmbeddedProto
   using string_view = array_view<char>;
   using bytes_view = array_view<uint8_t>;
 
+  //! Move the start of the view past the characters printed at its start by snprintf.
+  /*! When the text did not fit in the array the view is left with only the terminating zero.
+      \param[in,out] view The array which was passed to snprintf.
+      \param[in] n_chars The positive value returned by snprintf. */
+  inline void skip_printed(string_view& view, const int32_t n_chars)
+  {
+    uint32_t n_skip = static_cast<uint32_t>(n_chars);
+    if(n_skip >= view.size)
+    {
+      n_skip = (0 < view.size) ? (view.size - 1) : 0;
+    }
+    view.data += n_skip;
+    view.size -= n_skip;
+  }
+
 }
 
 #endif //_EMBEDDED_PROTO_DEFINES_H_
\ No newline at end of file
diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 605da20..45e096a 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -363,24 +363,22 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
           }
         }
 
         if(nullptr != name)
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%s\"", indent_level, " ", name, this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%.*s\"", indent_level, " ", name, static_cast<int>(this->get_length()), this->get_const());
         }
         else
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\"", indent_level, " ", this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%.*s\"", indent_level, " ", static_cast<int>(this->get_length()), this->get_const());
         }
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
         }
 
         return left_chars;
@@ -443,8 +441,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
           }
         }
 
@@ -459,8 +456,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
         }
 
         uint32 field;
@@ -474,8 +470,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
         }
 
         return left_chars;
diff --git a/src/Fields.h b/src/Fields.h
index 4e391f9..ec87f3f 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -252,8 +252,7 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
           if(0 < n_chars_used) {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
           }
         }
 
@@ -271,8 +270,7 @@ namespace EmbeddedProto
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
         }
 
         if constexpr((Field::FieldTypes::int32 == FIELDTYPE) ||
@@ -322,8 +320,7 @@ namespace EmbeddedProto
 
         if(0 < n_chars_used) {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
         }
 
         return left_chars;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 3fb5fef..14b0275 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -271,8 +271,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
           }
         }
 
@@ -280,8 +279,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
         }
 
         for(uint32_t i = 0; i < this->get_length(); ++i)
@@ -293,8 +291,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_printed(left_chars, n_chars_used);
         }
 
         return left_chars;
-- 
2.43.0

