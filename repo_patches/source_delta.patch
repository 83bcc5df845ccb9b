From d4a45e00bdd75968b90d6b39ee358148e49c1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 001/211] fix: StringBuilder.delete must handle ranges that end
 before the last chunk

---
 classpath/java/lang/StringBuilder.java | 33 +++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index 8e78d1f..9301aa0 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -178,12 +178,16 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder delete(int start, int end) {
-    if (start >= end) {
-      return this;
+    if (end > length) {
+      end = length;
     }
 
-    if (start < 0 || end > length) {
-      throw new IndexOutOfBoundsException();
+    if (start < 0 || start > end) {
+      throw new StringIndexOutOfBoundsException(start);
+    }
+
+    if (start == end) {
+      return this;
     }
 
     flush();
@@ -194,27 +198,31 @@ public class StringBuilder implements CharSequence, Appendable {
       int e = index;
       int s = index - c.value.length();
       index = s;
-      
-      if (end >= e) {
+
+      if (start >= e) {
+        break;
+      } else if (end <= s) {
+        p = c;
+      } else if (end >= e) {
         if (start <= s) {
           if (p == null) {
             chain = c.next;
           } else {
             p.next = c.next;
-          }          
+          }
         } else {
           c.value = c.value.substring(0, start - s);
           break;
         }
       } else {
+        String v = c.value;
+        c.value = v.substring(end - s, e - s);
         if (start <= s) {
-          c.value = c.value.substring(end - s, e - s);
+          p = c;
         } else {
-          String v = c.value;
-          c.value = v.substring(end - s, e - s);
           c.next = new Cell(v.substring(0, start - s), c.next);
           break;
-        }        
+        }
       }
     }
 
@@ -224,6 +232,9 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder deleteCharAt(int i) {
+    if (i < 0 || i >= length) {
+      throw new StringIndexOutOfBoundsException(i);
+    }
     return delete(i, i + 1);
   }
 
-- 
2.43.0


From 6a7f231d6cbb7041d0f53f1b674f3b891de2eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 002/211] fix: String.charAt must reject an index equal to the
 length

---
 classpath/java/lang/String.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index be45b3c..c6434f1 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -501,7 +501,7 @@ public final class String
 
   @Override
   public char charAt(int index) {
-    if (index < 0 || index > length) {
+    if (index < 0 || index >= length) {
       throw new StringIndexOutOfBoundsException(index);
     }
 
-- 
2.43.0


From f970058e415f0137d88611ae8a1502e55163b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 003/211] fix: String.trim must remove every character up to
 U+0020

---
 classpath/java/lang/String.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index c6434f1..f69e73c 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -232,7 +232,7 @@ public final class String
     int start = -1;
     for (int i = 0; i < length; ++i) {
       char c = charAt(i);
-      if (start == -1 && ! Character.isWhitespace(c)) {
+      if (start == -1 && c > ' ') {
         start = i;
         break;
       }
@@ -241,7 +241,7 @@ public final class String
     int end = -1;
     for (int i = length - 1; i >= 0; --i) {
       char c = charAt(i);
-      if (end == -1 && ! Character.isWhitespace(c)) {
+      if (end == -1 && c > ' ') {
         end = i + 1;
         break;
       }
-- 
2.43.0


From b533c8f8015fdf70b93275323d34336c529ca023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 004/211] fix: clamp the start index in String and
 StringBuilder indexOf/lastIndexOf

---
 classpath/java/lang/String.java        | 7 +++++--
 classpath/java/lang/StringBuilder.java | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index f69e73c..00f090c 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -287,6 +287,8 @@ public final class String
   }
 
   public int indexOf(int c, int start) {
+    if (start < 0) start = 0;
+
     for (int i = start; i < length; ++i) {
       if (charAt(i) == c) {
         return i;
@@ -305,7 +307,8 @@ public final class String
   }
 
   public int indexOf(String s, int start) {
-    if (s.length == 0) return start;
+    if (start < 0) start = 0;
+    if (s.length == 0) return Math.min(start, length);
 
     for (int i = start; i < length - s.length + 1; ++i) {
       int j = 0;
@@ -327,7 +330,7 @@ public final class String
   }
 
   public int lastIndexOf(String s, int lastIndex) {
-    if (s.length == 0) return lastIndex;
+    if (s.length == 0) return lastIndex < 0 ? -1 : Math.min(lastIndex, length);
 
     for (int i = Math.min(length - s.length, lastIndex); i >= 0; --i) {
       int j = 0;
diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index 9301aa0..96c7d81 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -250,7 +250,8 @@ public class StringBuilder implements CharSequence, Appendable {
   
   public int indexOf(String s, int start) {
     int slength = s.length();
-    if (slength == 0) return start;
+    if (start < 0) start = 0;
+    if (slength == 0) return Math.min(start, length);
 
     for (int i = start; i < length - slength + 1; ++i) {
       int j = 0;
@@ -273,7 +274,7 @@ public class StringBuilder implements CharSequence, Appendable {
 
   public int lastIndexOf(String s, int lastIndex) {
     int slength = s.length();
-    if (slength == 0) return lastIndex;
+    if (slength == 0) return lastIndex < 0 ? -1 : Math.min(lastIndex, length);
 
     for (int i = Math.min(length - slength, lastIndex); i >= 0; --i) {
       int j = 0;
-- 
2.43.0


From 56141503d1d0a18fbaed52ff8cff3e29e2076c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 005/211] fix: String.replace(char, char) must not truncate
 chars to bytes

---
 classpath/java/lang/String.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index 00f090c..60cdf5e 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -348,7 +348,7 @@ public final class String
   }
 
   public String replace(char oldChar, char newChar) {
-    if (data instanceof char[]) {
+    if (data instanceof char[] || newChar >= 0x80) {
       char[] buf = new char[length];
       for (int i=0; i < length; i++) {
         if (charAt(i) == oldChar) {
@@ -364,7 +364,7 @@ public final class String
       byte oldByte = (byte)oldChar;
       byte newByte = (byte)newChar;
       for (int i=0; i < length; i++) {
-        if (orig[i+offset] == oldByte) {
+        if (oldChar < 0x80 && orig[i+offset] == oldByte) {
           buf[i] = newByte;
         } else {
           buf[i] = orig[i+offset];
-- 
2.43.0


From 6f1497e2584eaed901ea094f3237c5fc6060bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 006/211] fix: String.startsWith(String, int) compared the
 wrong substring

---
 classpath/java/lang/String.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index 60cdf5e..3ea364a 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -404,8 +404,8 @@ public final class String
   }
 
   public boolean startsWith(String s, int start) {
-    if (length >= s.length + start) {
-      return substring(start, s.length).compareTo(s) == 0;
+    if (start >= 0 && start <= length - s.length) {
+      return substring(start, start + s.length).compareTo(s) == 0;
     } else {
       return false;
     }
-- 
2.43.0


From b80e8e2eb4071e914c50382a92cb34a5a0c1cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 007/211] fix: String.regionMatches must return false for a
 region out of range

---
 classpath/java/lang/String.java | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index 3ea364a..5b47bb9 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -658,6 +658,15 @@ public final class String
   public boolean regionMatches(boolean ignoreCase, int thisOffset,
                                String match, int matchOffset, int length)
   {
+    if (thisOffset < 0 || matchOffset < 0
+        || (long) thisOffset + length > this.length
+        || (long) matchOffset + length > match.length)
+    {
+      return false;
+    } else if (length <= 0) {
+      return true;
+    }
+
     String a = substring(thisOffset, thisOffset + length);
     String b = match.substring(matchOffset, matchOffset + length);
     if (ignoreCase) {
-- 
2.43.0


From 0c1577210a9c94611e3a06f3482b4731eead2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 008/211] fix: range checks of Character.codePointCount and
 codePointAt

---
 classpath/java/lang/Character.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Character.java b/classpath/java/lang/Character.java
index 2a0882d..89447b2 100644
--- a/classpath/java/lang/Character.java
+++ b/classpath/java/lang/Character.java
@@ -226,7 +226,7 @@ public final class Character implements Comparable<Character> {
     }
 
     char high = sequence.charAt(offset);
-    if (! isHighSurrogate(high) || offset >= length) {
+    if (! isHighSurrogate(high) || offset + 1 >= length) {
       return high;
     }
     char low = sequence.charAt(offset + 1);
@@ -239,7 +239,7 @@ public final class Character implements Comparable<Character> {
 
   public static int codePointCount(CharSequence sequence, int start, int end) {
     int length = sequence.length();
-    if (start < 0 || start > end || end >= length) {
+    if (start < 0 || start > end || end > length) {
       throw new IndexOutOfBoundsException();
     }
 
-- 
2.43.0


From b12d9456f4fbd7a580bc45c572c2f736b9f93a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 009/211] fix: StringBuilder.setLength must pad when growing
 and drop pending chars when clearing

---
 classpath/java/lang/StringBuilder.java | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index 96c7d81..4c3099b 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -303,11 +303,18 @@ public class StringBuilder implements CharSequence, Appendable {
     if (v == 0) {
       length = 0;
       chain = null;
+      buffer = null;
+      position = 0;
       return;
     }
 
     flush();
 
+    if (v > length) {
+      append(new char[v - length]);
+      return;
+    }
+
     int index = length;
     length = v;
     for (Cell c = chain; c != null; c = c.next) {
-- 
2.43.0


From 89ac2d513ab850d22de3715544bb20df2234b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 010/211] fix: U+0000 is a single byte in UTF-8

---
 classpath/avian/Utf8.java | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/classpath/avian/Utf8.java b/classpath/avian/Utf8.java
index 2c32fec..aebda3e 100644
--- a/classpath/avian/Utf8.java
+++ b/classpath/avian/Utf8.java
@@ -26,10 +26,7 @@ public class Utf8 {
     ByteArrayOutputStream buf = new ByteArrayOutputStream();
     for (int i = offset; i < offset+length; ++i) {
       char c = s16[i];
-      if (c == '\u0000') {     // null char
-        buf.write(0);
-        buf.write(0);
-      } else if (c < 0x080) {  // 1 byte char
+      if (c < 0x080) {  // 1 byte char
         buf.write(c);
       } else if (c < 0x0800) { // 2 byte char
         buf.write(0x0c0 | (c >>> 6));
@@ -50,12 +47,6 @@ public class Utf8 {
     while (i < offset+length) {
       int x = s8[i++];
       if ((x & 0x080) == 0x0) {          // 1 byte char
-        if (x == 0) {                    // 2 byte null char
-          if (i == offset + length) {
-            return null;
-          }
-          ++ i;
-        }
         cram(buf, j++, x);
       } else if ((x & 0x0e0) == 0x0c0) { // 2 byte char
         if (i == offset + length) {
-- 
2.43.0


From 93575c3a26a5e6e56c458976d90df4b0bf137a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 011/211] fix: encode and decode supplementary characters in
 UTF-8

---
 classpath/avian/Utf8.java                | 28 ++++++++++++++++++++++++
 classpath/java/io/InputStreamReader.java | 17 +++++++++++---
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/classpath/avian/Utf8.java b/classpath/avian/Utf8.java
index aebda3e..bfadcfe 100644
--- a/classpath/avian/Utf8.java
+++ b/classpath/avian/Utf8.java
@@ -31,6 +31,15 @@ public class Utf8 {
       } else if (c < 0x0800) { // 2 byte char
         buf.write(0x0c0 | (c >>> 6));
         buf.write(0x080 | (c & 0x03f));
+      } else if (Character.isHighSurrogate(c) && i + 1 < offset+length
+                 && Character.isLowSurrogate(s16[i + 1])) { // 4 byte char
+        int cp = Character.toCodePoint(c, s16[++i]);
+        buf.write(0x0f0 | (cp >>> 18));
+        buf.write(0x080 | ((cp >>> 12) & 0x03f));
+        buf.write(0x080 | ((cp >>> 6) & 0x03f));
+        buf.write(0x080 | (cp & 0x03f));
+      } else if (Character.isHighSurrogate(c) || Character.isLowSurrogate(c)) {
+        buf.write('?');
       } else {                // 3 byte char
         buf.write(0x0e0 | ((c >>> 12) & 0x0f));
         buf.write(0x080 | ((c >>> 6) & 0x03f));
@@ -70,6 +79,25 @@ public class Utf8 {
         }
         int y = s8[i++]; int z = s8[i++];
         cram(buf, j++, ((x & 0xf) << 12) | ((y & 0x3f) << 6) | (z & 0x3f));
+      } else if ((x & 0x0f8) == 0x0f0) { // 4 byte char
+        if (i + 2 >= offset + length) {
+          return null;
+        }
+
+        if (!isMultiByte) {
+          buf = widen(buf, j, length-2);
+          isMultiByte = true;
+        }
+        int y = s8[i++]; int z = s8[i++]; int w = s8[i++];
+        char[] pair = Character.toChars
+          (((x & 0x7) << 18) | ((y & 0x3f) << 12) | ((z & 0x3f) << 6) | (w & 0x3f));
+        for (int k = 0; k < pair.length; ++k) cram(buf, j++, pair[k]);
+      } else {                           // malformed
+        if (!isMultiByte) {
+          buf = widen(buf, j, length);
+          isMultiByte = true;
+        }
+        cram(buf, j++, 0xfffd);
       }
     }
 
diff --git a/classpath/java/io/InputStreamReader.java b/classpath/java/io/InputStreamReader.java
index c7805a6..52d5525 100644
--- a/classpath/java/io/InputStreamReader.java
+++ b/classpath/java/io/InputStreamReader.java
@@ -16,6 +16,7 @@ public class InputStreamReader extends Reader {
   private static final int MultibytePadding = 4;
 
   private final InputStream in;
+  private char pending;
 
   public InputStreamReader(InputStream in) {
     this.in = in;
@@ -36,6 +37,12 @@ public class InputStreamReader extends Reader {
       return 0;
     }
 
+    if (pending != 0) {
+      b[offset] = pending;
+      pending = 0;
+      return 1;
+    }
+
     byte[] buffer = new byte[length + MultibytePadding];
     int bufferLength = length;
     int bufferOffset = 0;
@@ -73,11 +80,15 @@ public class InputStreamReader extends Reader {
       char[] buffer16 = Utf8.decode16(buffer, 0, bufferOffset);
 
       if (buffer16 != null) {
-        bufferOffset = 0;
+        int count = buffer16.length;
+        if (count > length) {
+          // the second half of a surrogate pair does not fit
+          pending = buffer16[--count];
+        }
 
-        System.arraycopy(buffer16, 0, b, offset, buffer16.length);
+        System.arraycopy(buffer16, 0, b, offset, count);
 
-        return buffer16.length;
+        return count;
       } else {
         // the buffer ended in an incomplete multibyte character, so
         // we try to read a another byte at a time until it's complete
-- 
2.43.0


From 0cab968e3fc8bade3b2e475a52f81b1c5d3bb333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 012/211] fix: decode ISO-8859-1 bytes as ISO-8859-1, not UTF-8

---
 classpath/java/lang/String.java | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index 5b47bb9..764d00a 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -60,10 +60,20 @@ public final class String
   public String(byte bytes[], int offset, int length, String charsetName)
     throws UnsupportedEncodingException
   {
-    this(bytes, offset, length);
-    if (! (charsetName.equalsIgnoreCase(UTF_8_ENCODING)
-           || charsetName.equalsIgnoreCase(ISO_8859_1_ENCODING)))
-    {
+    this(decode(bytes, offset, length, charsetName), offset, length, true);
+  }
+
+  private static Object decode(byte bytes[], int offset, int length,
+                               String charsetName)
+    throws UnsupportedEncodingException
+  {
+    if (charsetName.equalsIgnoreCase(UTF_8_ENCODING)) {
+      return bytes;
+    } else if (charsetName.equalsIgnoreCase(ISO_8859_1_ENCODING)) {
+      char[] c = new char[bytes.length];
+      for (int i = 0; i < c.length; ++i) c[i] = (char) (bytes[i] & 0xFF);
+      return c;
+    } else {
       throw new UnsupportedEncodingException(charsetName);
     }
   }
-- 
2.43.0


From 88a5c5e90c593a8565bf0d22f96c0f3291f5b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 013/211] fix: creating a String from truncated UTF-8
 overflowed the stack

---
 classpath/java/lang/String.java | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index 764d00a..b32a941 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -143,12 +143,19 @@ public final class String
         System.arraycopy(data, offset, c, 0, length);
       } else {
         c = Utf8.decode((byte[])data, offset, length);
-        if(c instanceof char[]) length = ((char[])c).length;
         if (c == null) {
-          throw new RuntimeException
-            ("unable to parse \"" + new String(data, offset, length, false)
-             + "\"");
+          // the last character is incomplete
+          int end = length;
+          char[] head = null;
+          while (head == null) {
+            head = Utf8.decode16((byte[])data, offset, --end);
+          }
+          char[] all = new char[head.length + 1];
+          System.arraycopy(head, 0, all, 0, head.length);
+          all[head.length] = '\ufffd';
+          c = all;
         }
+        if(c instanceof char[]) length = ((char[])c).length;
       }
 
       this.data = c;
-- 
2.43.0


From 884cf065bc2bbc7fc49136def481061347808664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 014/211] fix: shifting by a constant which does not fit in 8
 bits aborted the JIT

---
 src/codegen/target/x86/operations.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codegen/target/x86/operations.cpp b/src/codegen/target/x86/operations.cpp
index d9cbde1..16105b8 100644
--- a/src/codegen/target/x86/operations.cpp
+++ b/src/codegen/target/x86/operations.cpp
@@ -1370,14 +1370,15 @@ void doShift(Context* c,
     moveCR(c, 4, &masked, 4, &cx);
     shift(c, aSize, &cx, bSize, b);
   } else {
+    // only the low bits of the distance count
+    v &= (bSize == 8 ? 0x3F : 0x1F);
+
     maybeRex(c, bSize, b);
     if (v == 1) {
       opcode(c, 0xd1, type + regCode(b));
-    } else if (vm::fitsInInt8(v)) {
+    } else {
       opcode(c, 0xc1, type + regCode(b));
       c->code.append(v);
-    } else {
-      abort(c);
     }
   }
 }
-- 
2.43.0


From 280bb0768c5fcb6148659df41a505574ad9b66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 015/211] fix: wide float and double loads and stores aborted
 the VM

---
 src/compile.cpp   | 16 ++++++++++++++++
 src/interpret.cpp | 12 ++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 37ff053..57c6968 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -6409,6 +6409,14 @@ loop:
         frame->store(ir::Type::i4(), codeReadInt16(t, code, ip));
       } break;
 
+      case fload: {
+        frame->load(ir::Type::f4(), codeReadInt16(t, code, ip));
+      } break;
+
+      case fstore: {
+        frame->store(ir::Type::f4(), codeReadInt16(t, code, ip));
+      } break;
+
       case lload: {
         frame->loadLarge(ir::Type::i8(), codeReadInt16(t, code, ip));
       } break;
@@ -6417,6 +6425,14 @@ loop:
         frame->storeLarge(ir::Type::i8(), codeReadInt16(t, code, ip));
       } break;
 
+      case dload: {
+        frame->loadLarge(ir::Type::f8(), codeReadInt16(t, code, ip));
+      } break;
+
+      case dstore: {
+        frame->storeLarge(ir::Type::f8(), codeReadInt16(t, code, ip));
+      } break;
+
       case ret: {
         unsigned index = codeReadInt16(t, code, ip);
 
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 6ed8fef..2ad2088 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -2952,22 +2952,26 @@ wide:
   }
     goto loop;
 
-  case iload: {
+  case iload:
+  case fload: {
     pushInt(t, localInt(t, codeReadInt16(t, code, ip)));
   }
     goto loop;
 
-  case istore: {
+  case istore:
+  case fstore: {
     setLocalInt(t, codeReadInt16(t, code, ip), popInt(t));
   }
     goto loop;
 
-  case lload: {
+  case lload:
+  case dload: {
     pushLong(t, localLong(t, codeReadInt16(t, code, ip)));
   }
     goto loop;
 
-  case lstore: {
+  case lstore:
+  case dstore: {
     setLocalLong(t, codeReadInt16(t, code, ip), popLong(t));
   }
     goto loop;
-- 
2.43.0


From 90a2492689aa2c8826aed0367e20b021ab50dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 016/211] fix: lcmp used as a value compared the longs as
 unsigned

---
 include/avian/codegen/runtime.h | 2 +-
 src/codegen/runtime.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/avian/codegen/runtime.h b/include/avian/codegen/runtime.h
index 527d68a..1037596 100644
--- a/include/avian/codegen/runtime.h
+++ b/include/avian/codegen/runtime.h
@@ -19,7 +19,7 @@ int64_t compareDoublesG(uint64_t bi, uint64_t ai);
 int64_t compareDoublesL(uint64_t bi, uint64_t ai);
 int64_t compareFloatsG(uint32_t bi, uint32_t ai);
 int64_t compareFloatsL(uint32_t bi, uint32_t ai);
-int64_t compareLongs(uint64_t b, uint64_t a);
+int64_t compareLongs(int64_t b, int64_t a);
 uint64_t addDouble(uint64_t b, uint64_t a);
 uint64_t subtractDouble(uint64_t b, uint64_t a);
 uint64_t multiplyDouble(uint64_t b, uint64_t a);
diff --git a/src/codegen/runtime.cpp b/src/codegen/runtime.cpp
index b868464..883bd28 100644
--- a/src/codegen/runtime.cpp
+++ b/src/codegen/runtime.cpp
@@ -98,7 +98,7 @@ int64_t compareFloatsL(uint32_t bi, uint32_t ai)
   }
 }
 
-int64_t compareLongs(uint64_t b, uint64_t a)
+int64_t compareLongs(int64_t b, int64_t a)
 {
   if (a < b) {
     return -1;
-- 
2.43.0


From 8a7681b5da450b1858ac429ece77a0a9824493a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 017/211] fix: f2l must saturate for finite values out of range

---
 src/codegen/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen/runtime.cpp b/src/codegen/runtime.cpp
index 883bd28..58404bf 100644
--- a/src/codegen/runtime.cpp
+++ b/src/codegen/runtime.cpp
@@ -253,7 +253,9 @@ int64_t floatToLong(int32_t a)
   case FP_INFINITE:
     return signbit(f) ? INT64_MIN : INT64_MAX;
   default:
-    return static_cast<int64_t>(f);
+    return f >= INT64_MAX
+               ? INT64_MAX
+               : (f <= INT64_MIN ? INT64_MIN : static_cast<int64_t>(f));
   }
 }
 
-- 
2.43.0


From 43f121200d21979d972e123ba02051725b07a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 018/211] fix: negative int constants from the constant pool
 were not sign-extended by the JIT

---
 src/compile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 57c6968..958773c 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -5720,8 +5720,10 @@ loop:
         ir::Type type = singletonBit(t, pool, poolSize(t, pool), index - 1)
                             ? ir::Type::f4()
                             : ir::Type::i4();
-        frame->push(type,
-                    c->constant(singletonValue(t, pool, index - 1), type));
+        frame->push(
+            type,
+            c->constant(static_cast<int32_t>(singletonValue(t, pool, index - 1)),
+                        type));
       }
     } break;
 
-- 
2.43.0


From 0b0bf072c0295b51c666e08d5da0ad2be2d4a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 019/211] fix: branches on unordered float and double
 comparisons were taken for fcmpg/dcmpg; iflt/ifle

---
 src/codegen/target/x86/encode.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codegen/target/x86/encode.cpp b/src/codegen/target/x86/encode.cpp
index 3831366..754f2b7 100644
--- a/src/codegen/target/x86/encode.cpp
+++ b/src/codegen/target/x86/encode.cpp
@@ -311,6 +311,9 @@ void branchFloat(Context* c, lir::TernaryOperation op, lir::Constant* target)
     break;
 
   case lir::JumpIfFloatLess:
+    // jp past the branch: the comparison sets CF and ZF if unordered
+    c->code.append(0x7a);
+    c->code.append(6);
     conditional(c, 0x82, target);
     break;
 
@@ -319,6 +322,9 @@ void branchFloat(Context* c, lir::TernaryOperation op, lir::Constant* target)
     break;
 
   case lir::JumpIfFloatLessOrEqual:
+    // jp past the branch: the comparison sets CF and ZF if unordered
+    c->code.append(0x7a);
+    c->code.append(6);
     conditional(c, 0x86, target);
     break;
 
-- 
2.43.0


From d012a1a9ff967f25760aedd3ac00758e46092010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 020/211] fix: the interpreter's f2l must saturate for finite
 values out of range

---
 src/interpret.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 2ad2088..a2f4838 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1401,7 +1401,10 @@ loop:
       pushLong(t, signbit(f) ? INT64_MIN : INT64_MAX);
       break;
     default:
-      pushLong(t, static_cast<int64_t>(f));
+      pushLong(t,
+               f >= INT64_MAX
+                   ? INT64_MAX
+                   : (f <= INT64_MIN ? INT64_MIN : static_cast<int64_t>(f)));
       break;
     }
   }
-- 
2.43.0


From 139084ca73596129bbacee52fcc8a1bb9ed8ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 021/211] fix: dividing the minimum int or long by minus one
 threw ArithmeticException or crashed

---
 src/codegen/target/x86/operations.cpp | 47 ++++++++++++++++++++++-----
 src/compile.cpp                       |  9 ++---
 src/interpret.cpp                     | 10 +++---
 3 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/codegen/target/x86/operations.cpp b/src/codegen/target/x86/operations.cpp
index 16105b8..18cf3eb 100644
--- a/src/codegen/target/x86/operations.cpp
+++ b/src/codegen/target/x86/operations.cpp
@@ -1306,6 +1306,43 @@ void multiplyCR(Context* c,
   }
 }
 
+// Divides (r|e)ax by a, leaving the quotient in (r|e)ax and the remainder in
+// (r|e)dx.  Dividing by minus one needs a case of its own, since idiv raises
+// an exception when the quotient overflows.
+void divideAX(Context* c,
+              unsigned size,
+              lir::RegisterPair* a,
+              lir::RegisterPair* ax)
+{
+  lir::RegisterPair dx(rdx);
+
+  maybeRex(c, size, a);
+  opcode(c, 0x83, 0xf8 + regCode(a));  // cmp a, -1
+  c->code.append(0xff);
+
+  opcode(c, 0x75);  // jne
+  unsigned notMinusOne = c->code.length();
+  c->code.append(0);
+
+  negateR(c, size, ax);
+  opcode(c, 0x31, 0xc0 + regCode(&dx) * 9);  // xor edx, edx
+
+  opcode(c, 0xeb);  // jmp
+  unsigned done = c->code.length();
+  c->code.append(0);
+
+  int8_t offset = c->code.length() - notMinusOne - 1;
+  c->code.set(notMinusOne, &offset, 1);
+
+  maybeRex(c, size, a, ax);
+  opcode(c, 0x99);  // cdq
+  maybeRex(c, size, ax, a);
+  opcode(c, 0xf7, 0xf8 + regCode(a));
+
+  offset = c->code.length() - done - 1;
+  c->code.set(done, &offset, 1);
+}
+
 void divideRR(Context* c,
               unsigned aSize,
               lir::RegisterPair* a,
@@ -1319,10 +1356,7 @@ void divideRR(Context* c,
 
   c->client->save(rdx);
 
-  maybeRex(c, aSize, a, b);
-  opcode(c, 0x99);  // cdq
-  maybeRex(c, aSize, b, a);
-  opcode(c, 0xf7, 0xf8 + regCode(a));
+  divideAX(c, aSize, a, b);
 }
 
 void remainderRR(Context* c,
@@ -1338,10 +1372,7 @@ void remainderRR(Context* c,
 
   c->client->save(rdx);
 
-  maybeRex(c, aSize, a, b);
-  opcode(c, 0x99);  // cdq
-  maybeRex(c, aSize, b, a);
-  opcode(c, 0xf7, 0xf8 + regCode(a));
+  divideAX(c, aSize, a, b);
 
   lir::RegisterPair dx(rdx);
   moveRR(c, vm::TargetBytesPerWord, &dx, vm::TargetBytesPerWord, b);
diff --git a/src/compile.cpp b/src/compile.cpp
index 958773c..9e136d4 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2593,7 +2593,8 @@ void NO_RETURN throwArithmetic(MyThread* t)
 int64_t divideLong(MyThread* t, int64_t b, int64_t a)
 {
   if (LIKELY(b)) {
-    return a / b;
+    // the quotient overflows if a is the minimum value and b is -1
+    return b == -1 ? 0 - static_cast<uint64_t>(a) : a / b;
   } else {
     throwArithmetic(t);
   }
@@ -2602,7 +2603,7 @@ int64_t divideLong(MyThread* t, int64_t b, int64_t a)
 int64_t divideInt(MyThread* t, int32_t b, int32_t a)
 {
   if (LIKELY(b)) {
-    return a / b;
+    return static_cast<int32_t>(b == -1 ? 0 - static_cast<uint32_t>(a) : a / b);
   } else {
     throwArithmetic(t);
   }
@@ -2611,7 +2612,7 @@ int64_t divideInt(MyThread* t, int32_t b, int32_t a)
 int64_t moduloLong(MyThread* t, int64_t b, int64_t a)
 {
   if (LIKELY(b)) {
-    return a % b;
+    return b == -1 ? 0 : a % b;
   } else {
     throwArithmetic(t);
   }
@@ -2620,7 +2621,7 @@ int64_t moduloLong(MyThread* t, int64_t b, int64_t a)
 int64_t moduloInt(MyThread* t, int32_t b, int32_t a)
 {
   if (LIKELY(b)) {
-    return a % b;
+    return b == -1 ? 0 : a % b;
   } else {
     throwArithmetic(t);
   }
diff --git a/src/interpret.cpp b/src/interpret.cpp
index a2f4838..f6d16fc 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1743,7 +1743,8 @@ loop:
       goto throw_;
     }
 
-    pushInt(t, a / b);
+    // the quotient overflows if a is the minimum value and b is -1
+    pushInt(t, b == -1 ? 0 - static_cast<uint32_t>(a) : a / b);
   }
     goto loop;
 
@@ -2108,7 +2109,7 @@ loop:
       goto throw_;
     }
 
-    pushInt(t, a % b);
+    pushInt(t, b == -1 ? 0 : a % b);
   }
     goto loop;
 
@@ -2358,7 +2359,8 @@ loop:
       goto throw_;
     }
 
-    pushLong(t, a / b);
+    // the quotient overflows if a is the minimum value and b is -1
+    pushLong(t, b == -1 ? 0 - static_cast<uint64_t>(a) : a / b);
   }
     goto loop;
 
@@ -2455,7 +2457,7 @@ loop:
       goto throw_;
     }
 
-    pushLong(t, a % b);
+    pushLong(t, b == -1 ? 0 : a % b);
   }
     goto loop;
 
-- 
2.43.0


From 7a6668088ba692070839a35fb6719861257c46bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 022/211] fix: endless loop looking for a line number if the
 table has two for one instruction

---
 src/process.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.cpp b/src/process.cpp
index ba6cfd5..2fb99ba 100644
--- a/src/process.cpp
+++ b/src/process.cpp
@@ -292,7 +292,8 @@ int findLineNumber(Thread* t UNUSED, GcMethod* method, unsigned ip)
         return lineNumberLine(ln);
       } else if (ip < lineNumberIp(ln)) {
         top = middle;
-      } else if (ip > lineNumberIp(ln)) {
+      } else {
+        // the next entry applies, even if it is for the same instruction
         bottom = middle + 1;
       }
     }
-- 
2.43.0


From c06a8b76993e9a3d684a1924c5292e6549a1b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 023/211] fix: locals were lost when a virtual call or
 arraylength on null was caught

---
 src/compile.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 9e136d4..5a96ead 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -4379,9 +4379,16 @@ loop:
       goto next;
 
     case arraylength: {
+      ir::Value* array = frame->pop(ir::Type::object());
+
+      if (inTryBlock(t, code, ip - 1)) {
+        c->saveLocals();
+        frame->trace(0, 0);
+      }
+
       frame->push(ir::Type::i4(),
                   c->load(ir::ExtendMode::Signed,
-                          c->memory(frame->pop(ir::Type::object()),
+                          c->memory(array,
                                     ir::Type::iptr(),
                                     TargetArrayLength),
                           ir::Type::i4()));
@@ -5483,6 +5490,12 @@ loop:
 
             ir::Value* instance = c->peek(1, parameterFootprint - 1);
 
+            // loading the class of the instance traps if it is null
+            if (inTryBlock(t, code, ip - 3)) {
+              c->saveLocals();
+              frame->trace(0, 0);
+            }
+
             frame->stackCall(
                 c->memory(c->binaryOp(
                               lir::And,
-- 
2.43.0


From acda1fa08f6b2c16859263c7a53b6f705c63e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 024/211] fix: comparing NaN left an extra value on the
 interpreter's stack

---
 src/interpret.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index f6d16fc..a6aac3f 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1214,8 +1214,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, 1);
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1233,8 +1232,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, static_cast<unsigned>(-1));
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1471,8 +1469,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, 1);
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1490,8 +1487,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, static_cast<unsigned>(-1));
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
-- 
2.43.0


From 0b2a850b8460ce6e8a52d330b1ab9d3ebb94036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 025/211] fix: the interpreter sign-extended char fields

---
 src/interpret.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index a6aac3f..e451df0 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -733,6 +733,9 @@ void pushField(Thread* t, object target, GcField* field)
     break;
 
   case CharField:
+    pushInt(t, fieldAtOffset<uint16_t>(target, field->offset()));
+    break;
+
   case ShortField:
     pushInt(t, fieldAtOffset<int16_t>(target, field->offset()));
     break;
-- 
2.43.0


From 856c3c365098a65a63c08beb935d6cf5e9003294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 026/211] fix: debug builds took what follows a comparison for
 a branch offset

---
 src/compile.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 5a96ead..3559d64 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -3598,7 +3598,13 @@ bool integerBranch(MyThread* t,
   }
 
   avian::codegen::Compiler* c = frame->c;
-  unsigned instruction = code->body()[ip++];
+  unsigned instruction = code->body()[ip];
+  if (instruction < ifeq or instruction > ifle) {
+    // not a branch, so what follows it is not an offset
+    return false;
+  }
+
+  ++ip;
   uint32_t offset = codeReadInt16(t, code, ip);
   uint32_t newIp = (ip - 3) + offset;
   assertT(t, newIp < code->length());
@@ -3616,8 +3622,7 @@ bool integerBranch(MyThread* t,
     break;
 
   default:
-    ip -= 3;
-    return false;
+    abort(t);
   }
 
   *newIpp = newIp;
@@ -3676,7 +3681,13 @@ bool floatBranch(MyThread* t,
   }
 
   avian::codegen::Compiler* c = frame->c;
-  unsigned instruction = code->body()[ip++];
+  unsigned instruction = code->body()[ip];
+  if (instruction < ifeq or instruction > ifle) {
+    // not a branch, so what follows it is not an offset
+    return false;
+  }
+
+  ++ip;
   uint32_t offset = codeReadInt16(t, code, ip);
   uint32_t newIp = (ip - 3) + offset;
   assertT(t, newIp < code->length());
@@ -3695,8 +3706,7 @@ bool floatBranch(MyThread* t,
     break;
 
   default:
-    ip -= 3;
-    return false;
+    abort(t);
   }
 
   *newIpp = newIp;
-- 
2.43.0


From 946fac816551966c169d097f4023fe1ef01db4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 027/211] fix: LinkedList.add(int, Object) lost the size and
 the backward link, and could not append

---
 classpath/java/util/LinkedList.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index 6896b1e..b5ea9af 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -140,10 +140,14 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   public void add(int index, T element) {
     if (index == 0) {
       addFirst(element);
+    } else if (index == size) {
+      addLast(element);
     } else {
       Cell<T> cell = find(index);
       Cell<T> newCell = new Cell(element, cell.prev, cell);
       cell.prev.next = newCell;
+      cell.prev = newCell;
+      ++ size;
     }
   }
 
-- 
2.43.0


From ed7b810a6054b2bddf6c701be181c4075deba888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 028/211] fix: LinkedList.pollLast must return null if the list
 is empty

---
 classpath/java/util/LinkedList.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index b5ea9af..74d7f65 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -289,7 +289,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
       remove(rear);
       return v;
     } else {
-      throw new NoSuchElementException();
+      return null;
     }
   }
 
-- 
2.43.0


From 68d0a6a5620a1ab96e526d4c85a68e68b909e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 029/211] fix: LinkedList.remove{First,Last}Occurrence ignored
 the first element

---
 classpath/java/util/LinkedList.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index 74d7f65..9a59e79 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -380,7 +380,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   @Override
   public boolean removeFirstOccurrence(Object o) {
     int index = indexOf(o);
-    if (index > 0) {
+    if (index >= 0) {
       remove(index);
       
       return true;
@@ -392,7 +392,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   @Override
   public boolean removeLastOccurrence(Object o) {
     int lastIndex = lastIndexOf(o);
-    if (lastIndex > 0) {
+    if (lastIndex >= 0) {
       remove(lastIndex);
       
       return true;
-- 
2.43.0


From 05eeda1acca1fcf8d396dc467fdbeb4224ae9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 030/211] fix: LinkedList took a null element for the end of
 the list

---
 classpath/java/util/LinkedList.java | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index 9a59e79..9806a62 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -263,12 +263,10 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
 
   @Override
   public T removeFirst() {
-    T result = pollFirst();
-    
-    if (result == null) {
+    if (front == null) {
       throw new NoSuchElementException();
     } else {
-      return result;
+      return pollFirst();
     }
   }
 
@@ -295,12 +293,10 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
 
   @Override
   public T removeLast() {
-    T result = pollLast();
-    
-    if (result == null) {
+    if (rear == null) {
       throw new NoSuchElementException();
     } else {
-      return result;
+      return pollLast();
     }
   }
 
@@ -369,12 +365,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
 
   @Override
   public T element() {
-    T result = peek();
-    if (result == null) {
-      throw new NoSuchElementException();
-    } else {
-      return result;
-    }
+    return getFirst();
   }
 
   @Override
-- 
2.43.0


From f7a72ba85e6ec0d4862bcec358243523cb5f892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 031/211] fix: HashSet.remove returned the opposite of whether
 the element was present

---
 classpath/java/util/HashSet.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/HashSet.java b/classpath/java/util/HashSet.java
index 3c70cda..f325bca 100644
--- a/classpath/java/util/HashSet.java
+++ b/classpath/java/util/HashSet.java
@@ -51,7 +51,7 @@ public class HashSet<T> extends AbstractSet<T> implements Set<T> {
   }
 
   public boolean remove(Object element) {
-    return map.remove(element) != Value;
+    return map.remove(element) == Value;
   }
 
   public void clear() {
-- 
2.43.0


From 46162b3b9e4da01755c579a3ddce751fae3e599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 032/211] fix: Collections.shuffle failed for lists of fixed
 size

---
 classpath/java/util/Collections.java | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/classpath/java/util/Collections.java b/classpath/java/util/Collections.java
index 9a6f998..1f5db4d 100644
--- a/classpath/java/util/Collections.java
+++ b/classpath/java/util/Collections.java
@@ -25,9 +25,8 @@ public class Collections {
       array[j] = tmp;
     }
  
-    list.clear();
     for (int i = 0; i < array.length; ++i) {
-      list.add(array[i]);
+      list.set(i, array[i]);
     }
   }
 
-- 
2.43.0


From 31beb86f925aa2c09e729dc9128fdcc398a17709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 033/211] fix: Arrays.binarySearch(int[], int) did not search
 the last element

---
 classpath/java/util/Arrays.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/Arrays.java b/classpath/java/util/Arrays.java
index 7fb756c..009ef91 100644
--- a/classpath/java/util/Arrays.java
+++ b/classpath/java/util/Arrays.java
@@ -688,7 +688,7 @@ public class Arrays {
   }
 
   public static int binarySearch(int[] a, int key) {
-    return binarySearch(a, 0, a.length - 1, key);
+    return binarySearch(a, 0, a.length, key);
   }
 
   public static int binarySearch(int[] a, int fromIndex, int toIndex, int key) {
@@ -699,7 +699,7 @@ public class Arrays {
     int right = toIndex - 1;
     int mid;
     while(left <= right) {
-      mid = (left + right) / 2;
+      mid = (left + right) >>> 1;
       if(a[mid] < key) {
         left = mid + 1;
       } else if(a[mid] > key) {
-- 
2.43.0


From 2f92db780d3c890120a649b14ecc7ab1067db512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 034/211] fix: ArrayDeque iterators failed or lost elements if
 the deque wraps around

---
 classpath/java/util/ArrayDeque.java | 30 +++++++----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/classpath/java/util/ArrayDeque.java b/classpath/java/util/ArrayDeque.java
index 8801806..9dccb07 100644
--- a/classpath/java/util/ArrayDeque.java
+++ b/classpath/java/util/ArrayDeque.java
@@ -285,7 +285,7 @@ public class ArrayDeque<T> extends AbstractDeque<T>
     return new GenericIterator() {
       @Override
       protected int getArrayIndex() {
-        int result = (endIndex - currentIndex) % dataArray.length;
+        int result = (endIndex - currentIndex + dataArray.length) % dataArray.length;
         return result;
       }
     };
@@ -332,28 +332,12 @@ public class ArrayDeque<T> extends AbstractDeque<T>
         expectedModCount = modCount;
       } else {  // array must be copied
         Object[] newArray = new Object[dataArray.length];
-        if (startIndex <= endIndex) {
-          int firstCopyCount = removalIndex - startIndex;
-          System.arraycopy(dataArray, startIndex, 
-                           newArray, 0, firstCopyCount);
-          System.arraycopy(dataArray, removalIndex + 1, 
-                           newArray, firstCopyCount, size - firstCopyCount);
-        } else if (removalIndex > startIndex) {
-          int firstCopyCount = removalIndex - startIndex;
-          System.arraycopy(dataArray, startIndex, 
-                           newArray, 0, firstCopyCount);
-          System.arraycopy(dataArray, startIndex + firstCopyCount + 1, 
-                           newArray, firstCopyCount, dataArray.length - removalIndex - 1);
-          System.arraycopy(dataArray, 0, newArray, size - removalIndex, endIndex + 1);
-        } else {
-          int firstCopyCount = dataArray.length - startIndex;
-          System.arraycopy(dataArray, startIndex, 
-                           newArray, 0, firstCopyCount);
-          System.arraycopy(dataArray, 0, 
-                           newArray, firstCopyCount, removalIndex);
-          System.arraycopy(dataArray, removalIndex + 1, 
-                           newArray, firstCopyCount + removalIndex, endIndex - removalIndex);
-        }
+        copyInto(newArray);
+        int position = (removalIndex - startIndex + dataArray.length)
+            % dataArray.length;
+        System.arraycopy(newArray, position + 1, newArray, position,
+                         size - position - 1);
+        newArray[size - 1] = null;
         
         dataArray = newArray;
         startIndex = 0;
-- 
2.43.0


From 20183daccdbabfc1a7d0939e72d7f0c6261092c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 035/211] fix: ArrayDeque did not grow from no capacity or by
 more than a factor of two

---
 classpath/java/util/ArrayDeque.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/ArrayDeque.java b/classpath/java/util/ArrayDeque.java
index 9dccb07..0f1ce14 100644
--- a/classpath/java/util/ArrayDeque.java
+++ b/classpath/java/util/ArrayDeque.java
@@ -48,7 +48,7 @@ public class ArrayDeque<T> extends AbstractDeque<T>
   
   private void ensureCapacity(int newSize) {
     if (dataArray.length < newSize) {
-      Object[] newArray = new Object[dataArray.length * 2];
+      Object[] newArray = new Object[Math.max(newSize, dataArray.length * 2)];
       copyInto(newArray);
       
       dataArray = newArray;
-- 
2.43.0


From d2d713347ed249dbcae26387934b7064dc186e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 036/211] fix: ArrayList.add(int, Object) must reject an index
 out of range

---
 classpath/java/util/ArrayList.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/ArrayList.java b/classpath/java/util/ArrayList.java
index 14e2dc3..aace1c2 100644
--- a/classpath/java/util/ArrayList.java
+++ b/classpath/java/util/ArrayList.java
@@ -83,7 +83,10 @@ public class ArrayList<T> extends AbstractList<T> implements java.io.Serializabl
   }
 
   public void add(int index, T element) {
-    int newSize = Math.max(size+1, index+1);
+    if (index < 0 || index > size) {
+      throw new IndexOutOfBoundsException(index + " not in [0, " + size + "]");
+    }
+    int newSize = size+1;
     grow(newSize);
     size = newSize;
     System.arraycopy(array, index, array, index+1, size-index-1);
-- 
2.43.0


From 0d793d4d36936e46bc8ad8e973e83c346a7758e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 037/211] fix: List.addAll returned true even if it added
 nothing

---
 classpath/java/util/ArrayList.java  | 2 +-
 classpath/java/util/LinkedList.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/ArrayList.java b/classpath/java/util/ArrayList.java
index aace1c2..c0e538c 100644
--- a/classpath/java/util/ArrayList.java
+++ b/classpath/java/util/ArrayList.java
@@ -100,7 +100,7 @@ public class ArrayList<T> extends AbstractList<T> implements java.io.Serializabl
 
   public boolean addAll(Collection<? extends T> collection) {
     for (T t: collection) add(t);
-    return true;
+    return ! collection.isEmpty();
   }
 
   public int indexOf(Object element) {
diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index 9806a62..a660f19 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -133,7 +133,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   @Override
   public boolean addAll(Collection<? extends T> collection) {
     for (T t: collection) add(t);
-    return true;
+    return ! collection.isEmpty();
   }
 
   @Override
-- 
2.43.0


From 05d879cf651d41499c38ab93018011fdb9235831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 038/211] fix: AbstractCollection.remove and clear must use the
 iterator, and removeAll must remove every occurrence

---
 classpath/java/util/AbstractCollection.java | 24 +++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/classpath/java/util/AbstractCollection.java b/classpath/java/util/AbstractCollection.java
index d6b6dda..f6d18e6 100644
--- a/classpath/java/util/AbstractCollection.java
+++ b/classpath/java/util/AbstractCollection.java
@@ -29,8 +29,10 @@ public abstract class AbstractCollection<T> implements Collection<T> {
   }
 
   public void clear() {
-    throw new UnsupportedOperationException("clear() in "
-                                            + this.getClass().getName());
+    for (Iterator<T> it = iterator(); it.hasNext();) {
+      it.next();
+      it.remove();
+    }
   }
 
   public boolean contains(Object element) {
@@ -71,8 +73,15 @@ public abstract class AbstractCollection<T> implements Collection<T> {
   }
 
   public boolean remove(Object element) {
-    throw new UnsupportedOperationException("remove(T) in "
-                                            + this.getClass().getName());
+    for (Iterator<T> it = iterator(); it.hasNext();) {
+      T e = it.next();
+      if (element == null ? e == null : element.equals(e)) {
+        it.remove();
+        return true;
+      }
+    }
+
+    return false;
   }
 
   public boolean removeAll(Collection<?> c) {
@@ -82,9 +91,12 @@ public abstract class AbstractCollection<T> implements Collection<T> {
 
     boolean changed = false;
 
-    Iterator<?> it = c.iterator();
+    Iterator<T> it = iterator();
     while (it.hasNext()) {
-      changed = remove(it.next()) || changed;
+      if (c.contains(it.next())) {
+        it.remove();
+        changed = true;
+      }
     }
 
     return changed;
-- 
2.43.0


From 69ff9735ad24972f901ecc9931cb224385b3560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 039/211] fix: BitSet.nextSetBit and nextClearBit skipped words
 and failed past the end

---
 classpath/java/util/BitSet.java | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/classpath/java/util/BitSet.java b/classpath/java/util/BitSet.java
index c76016a..2a65f84 100644
--- a/classpath/java/util/BitSet.java
+++ b/classpath/java/util/BitSet.java
@@ -179,30 +179,29 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   private int nextBit(int fromIndex, boolean bitClear) {
-    int pos = longPosition(fromIndex);
-    if (pos >= bits.length) {
-      return -1;
+    if (fromIndex < 0) {
+      throw new IndexOutOfBoundsException();
     }
+    int pos = longPosition(fromIndex);
     int current = fromIndex;
-    do {
-      long currValue = bits[pos];
-      if (currValue == 0) {
+    while (pos < bits.length) {
+      long candidates = bitClear ? ~bits[pos] : bits[pos];
+      if (candidates == 0) {
         pos++;
         current = pos << BITS_PER_LONG_SHIFT;
       } else {
         do {
-          long bitPos = bitPosition(current);
-          if (((currValue & bitPos) != 0) ^ bitClear) {
+          if ((candidates & bitPosition(current)) != 0) {
             return current;
           } else {
             current++;
           }
         } while (current % BITS_PER_LONG != 0);
+        pos++;
       }
-      pos++;
-    } while (pos < bits.length);
+    }
 
-    return -1;
+    return bitClear ? current : -1;
   }
 
   public int nextClearBit(int fromIndex) {
-- 
2.43.0


From 3db48a5372b66a9dd9fac98f3d080032091e643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 040/211] fix: BitSet.length was that of the storage, and
 intersects failed for sets of different size

---
 classpath/java/util/BitSet.java | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/classpath/java/util/BitSet.java b/classpath/java/util/BitSet.java
index 2a65f84..2f63285 100644
--- a/classpath/java/util/BitSet.java
+++ b/classpath/java/util/BitSet.java
@@ -161,8 +161,8 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   public boolean intersects(BitSet otherBits) {
-    int max = Math.max(bits.length, otherBits.bits.length);
-    for (int i = 0; i < max; i++) {
+    int min = Math.min(bits.length, otherBits.bits.length);
+    for (int i = 0; i < min; i++) {
       if ((bits[i] & otherBits.bits[i]) != 0) {
         return true;
       }
@@ -171,7 +171,16 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   public int length() {
-    return bits.length << BITS_PER_LONG_SHIFT;
+    for (int i = bits.length - 1; i >= 0; i--) {
+      if (bits[i] != 0) {
+        int length = i << BITS_PER_LONG_SHIFT;
+        for (long word = bits[i]; word != 0; word >>>= 1) {
+          length++;
+        }
+        return length;
+      }
+    }
+    return 0;
   }
 
   public int nextSetBit(int fromIndex) {
-- 
2.43.0


From 48435f22f78bc25ab223ff49d42ca9050d1b3e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 041/211] fix: BitSet.set and clear of an empty range, or
 beyond the storage

---
 classpath/java/util/BitSet.java | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/classpath/java/util/BitSet.java b/classpath/java/util/BitSet.java
index 2f63285..bc7a316 100644
--- a/classpath/java/util/BitSet.java
+++ b/classpath/java/util/BitSet.java
@@ -128,6 +128,11 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   public void set(int start, int end) {
+    if (start > end || start < 0) {
+      throw new IndexOutOfBoundsException();
+    } else if (start == end) {
+      return;
+    }
     MaskInfoIterator iter = new MaskInfoIterator(start, end);
     enlarge(iter.getLastPartition());
     while (iter.hasNext()) {
@@ -144,6 +149,13 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   public void clear(int start, int end) {
+    if (start > end || start < 0) {
+      throw new IndexOutOfBoundsException();
+    }
+    end = Math.min(end, bits.length << BITS_PER_LONG_SHIFT);
+    if (start >= end) {
+      return;
+    }
     MaskInfoIterator iter = new MaskInfoIterator(start, end);
     while (iter.hasNext()) {
       MaskInfo info = iter.next();
-- 
2.43.0


From 3902d474826a5a5b9fb4fa209da89b24b29eda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 042/211] fix: lists made by Arrays.asList could not be written
 to

---
 classpath/java/util/Arrays.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/Arrays.java b/classpath/java/util/Arrays.java
index 009ef91..cedc674 100644
--- a/classpath/java/util/Arrays.java
+++ b/classpath/java/util/Arrays.java
@@ -470,7 +470,9 @@ public class Arrays {
 
       @Override
       public T set(int index, T value) {
-        throw new UnsupportedOperationException();
+        T old = array[index];
+        array[index] = value;
+        return old;
       }
 
       @Override
-- 
2.43.0


From c92ac96527b57980d83e06cccfcec415891b40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 043/211] fix: LinkedHashSet.remove returned the opposite of
 whether the element was present

---
 classpath/java/util/LinkedHashSet.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/LinkedHashSet.java b/classpath/java/util/LinkedHashSet.java
index b508b1d..9b25592 100644
--- a/classpath/java/util/LinkedHashSet.java
+++ b/classpath/java/util/LinkedHashSet.java
@@ -51,7 +51,7 @@ public class LinkedHashSet<T> extends AbstractSet<T> implements Set<T> {
   }
 
   public boolean remove(Object element) {
-    return map.remove(element) != Value;
+    return map.remove(element) == Value;
   }
 
   public void clear() {
-- 
2.43.0


From db69e8639b10ddcf801bba89b8fb70ef7093d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 044/211] fix: Collection.toArray failed for null elements and
 did not terminate the elements in a larger array

---
 classpath/avian/Data.java | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/classpath/avian/Data.java b/classpath/avian/Data.java
index 0914362..e2126a5 100644
--- a/classpath/avian/Data.java
+++ b/classpath/avian/Data.java
@@ -37,13 +37,17 @@ public class Data {
 
     int i = 0;
     for (Object o: collection) {
-      if (c.isInstance(o)) {
+      if (o == null || c.isInstance(o)) {
         array[i++] = (T) o;
       } else {
         throw new ArrayStoreException();
       }
     }
 
+    if (i < array.length) {
+      array[i] = null;
+    }
+
     return array;
   }
 
-- 
2.43.0


From d399871a9a87c665ee55c63fae644da3deb55ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 045/211] fix: TreeMap.firstEntry and lastEntry must return
 null if the map is empty

---
 classpath/java/util/TreeMap.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/TreeMap.java b/classpath/java/util/TreeMap.java
index 9b8792d..854889d 100644
--- a/classpath/java/util/TreeMap.java
+++ b/classpath/java/util/TreeMap.java
@@ -52,12 +52,12 @@ public class TreeMap<K,V> implements NavigableMap<K,V> {
 
   @Override
   public Map.Entry<K,V> firstEntry() {
-    return set.first();
+    return isEmpty() ? null : set.first();
   }
 
   @Override
   public Map.Entry<K,V> lastEntry() {
-    return set.last();
+    return isEmpty() ? null : set.last();
   }
 
   @Override
-- 
2.43.0


From b1f4c92fb969feebdec3651d4ba0793d0fadc48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 046/211] fix: LinkedHashMap forgot that keys were removed, so
 that removing them again corrupted it

---
 classpath/java/util/LinkedHashMap.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/LinkedHashMap.java b/classpath/java/util/LinkedHashMap.java
index 2b9bcce..00ed0ac 100644
--- a/classpath/java/util/LinkedHashMap.java
+++ b/classpath/java/util/LinkedHashMap.java
@@ -62,7 +62,7 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
   }
 
   public V remove(Object key) {
-    LinkedKey<K> linked = lookup.get(key);
+    LinkedKey<K> linked = lookup.remove(key);
     if (linked == null) {
       return null;
     }
@@ -81,6 +81,7 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
 
   public void clear() {
     first = last = null;
+    lookup.clear();
     super.clear();
   }
 
-- 
2.43.0


From 0d2b1925b1d6b0fe934387da9a23b4e4471dddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 047/211] fix: TreeSet and TreeMap iterators could not remove
 the first element

---
 classpath/avian/PersistentSet.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/avian/PersistentSet.java b/classpath/avian/PersistentSet.java
index c257807..93f159e 100644
--- a/classpath/avian/PersistentSet.java
+++ b/classpath/avian/PersistentSet.java
@@ -446,7 +446,7 @@ public class PersistentSet <T> implements Iterable <T> {
       new_ = new_.left = new Node(old);
     }
 
-    return new Path(true, new_,
+    return new Path(false, new_,
                     new PersistentSet(newRoot, comparator, size),
                     ancestors);
   }
@@ -466,7 +466,7 @@ public class PersistentSet <T> implements Iterable <T> {
       new_ = new_.right = new Node(old);
     }
 
-    return new Path(true, new_,
+    return new Path(false, new_,
                     new PersistentSet(newRoot, comparator, size),
                     ancestors);
   }
-- 
2.43.0


From f34eebd7aec1ed934dc8538335683b0b859a076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 048/211] fix: Arrays.hashCode must be that of an equal list

---
 classpath/java/util/Arrays.java | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/classpath/java/util/Arrays.java b/classpath/java/util/Arrays.java
index cedc674..1691e61 100644
--- a/classpath/java/util/Arrays.java
+++ b/classpath/java/util/Arrays.java
@@ -258,13 +258,12 @@ public class Arrays {
 
   public static int hashCode(Object[] array) {
     if(array == null) {
-      return 9023;
+      return 0;
     }
 
-    int hc = 823347;
+    int hc = 1;
     for(Object o : array) {
-      hc += o != null ? o.hashCode() : 54267;
-      hc *= 3;
+      hc = hc * 31 + (o != null ? o.hashCode() : 0);
     }
     return hc;
   }
-- 
2.43.0


From a27219050009fc08c57b1515ab22e8565e457c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 049/211] fix: removing an absent key from
 ConcurrentHashMap.keySet threw NullPointerException

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index abb0713..5105242 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -311,8 +311,9 @@ public class ConcurrentHashMap<K,V>
     }
 
     public Map.Entry<K,V> remove(Object key) {
-      return new MyEntry
-        (ConcurrentHashMap.this.remove(key, RemoveCondition.Always, null));
+      Cell<K,V> cell = ConcurrentHashMap.this.remove
+        (key, RemoveCondition.Always, null);
+      return cell == null ? null : new MyEntry(cell);
     }
 
     public void clear() {
-- 
2.43.0


From 012ac60eb9110576a802b95cdcfcd4237a70c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 050/211] fix: ConcurrentHashMap.keySet contained every object

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index 5105242..9925fea 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -307,7 +307,8 @@ public class ConcurrentHashMap<K,V>
     }
 
     public Map.Entry<K,V> find(Object key) {
-      return new MyEntry(ConcurrentHashMap.this.find(key));
+      Cell<K,V> cell = ConcurrentHashMap.this.find(key);
+      return cell == null ? null : new MyEntry(cell);
     }
 
     public Map.Entry<K,V> remove(Object key) {
-- 
2.43.0


From 89efd7906b56a55f31e73e93c1a693eb4f8affe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 051/211] fix: ConcurrentHashMap lost entries when another key
 with the same hash code was added

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index 9925fea..5610323 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -212,7 +212,8 @@ public class ConcurrentHashMap<K,V>
         return null;
       }
 
-      node.value = new Cell(key, value, null);
+      node.value = new Cell
+        (key, value, path.fresh() ? null : path.value().value);
       if (unsafe.compareAndSwapObject
           (this, Content, content, new Content
            (path.fresh() ? path.add() : path.replaceWith(node),
-- 
2.43.0


From 9f99bfdb6c33cc2fb6c6934a5b9e9b295f488a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 052/211] fix: parse integers with a plus sign, reject empty
 and out of range ones

---
 classpath/java/lang/Byte.java    |  6 ++++-
 classpath/java/lang/Integer.java |  6 ++++-
 classpath/java/lang/Long.java    | 38 ++++++++++++++------------------
 3 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/classpath/java/lang/Byte.java b/classpath/java/lang/Byte.java
index a28ec6a..55bc7ee 100644
--- a/classpath/java/lang/Byte.java
+++ b/classpath/java/lang/Byte.java
@@ -51,7 +51,11 @@ public final class Byte extends Number implements Comparable<Byte> {
   }
 
   public static byte parseByte(String s) {
-    return (byte) Integer.parseInt(s);
+    int number = Integer.parseInt(s);
+    if (number < MIN_VALUE || number > MAX_VALUE) {
+      throw new NumberFormatException("\"" + s + "\" is out of range");
+    }
+    return (byte) number;
   }
 
   public byte byteValue() {
diff --git a/classpath/java/lang/Integer.java b/classpath/java/lang/Integer.java
index 3f48a91..6a50dba 100644
--- a/classpath/java/lang/Integer.java
+++ b/classpath/java/lang/Integer.java
@@ -120,7 +120,11 @@ public final class Integer extends Number implements Comparable<Integer> {
   }
 
   public static int parseInt(String s, int radix) {
-    return (int) Long.parseLong(s, radix);
+    long number = Long.parseLong(s, radix);
+    if (number < MIN_VALUE || number > MAX_VALUE) {
+      throw new NumberFormatException("\"" + s + "\" is out of range");
+    }
+    return (int) number;
   }
 
   public static Integer decode(String string) {
diff --git a/classpath/java/lang/Long.java b/classpath/java/lang/Long.java
index dda7ed1..832ffb3 100644
--- a/classpath/java/lang/Long.java
+++ b/classpath/java/lang/Long.java
@@ -132,43 +132,37 @@ public final class Long extends Number implements Comparable<Long> {
     else            return -1;
   }
 
-  private static long pow(long a, long b) {
-    long c = 1;
-    for (int i = 0; i < b; ++i) c *= a;
-    return c;
-  }
-
   public static long parseLong(String s) {
     return parseLong(s, 10);
   } 
 
   public static long parseLong(String s, int radix) {
-    int i = 0;
-    long number = 0;
+    if (s == null) {
+      throw new NumberFormatException("null");
+    }
+
     boolean negative = s.startsWith("-");
-    int length = s.length();
-    if (negative) {
-      i = 1;
-      -- length;
+    int i = negative || s.startsWith("+") ? 1 : 0;
+    if (i == s.length()) {
+      throw new NumberFormatException("no digits in \"" + s + "\"");
     }
 
-    long factor = pow(radix, length - 1);
+    // accumulate the negated value, since -MIN_VALUE is not a long
+    long limit = negative ? MIN_VALUE : -MAX_VALUE;
+    long number = 0;
     for (; i < s.length(); ++i) {
       char c = s.charAt(i);
       int digit = Character.digit(c, radix);
-      if (digit >= 0) {
-        number += digit * factor;
-        factor /= radix;
-      } else {
+      if (digit < 0) {
         throw new NumberFormatException("invalid character " + c + " code " +
                                         (int) c);
       }
+      if (number < limit / radix || number * radix < limit + digit) {
+        throw new NumberFormatException("\"" + s + "\" is out of range");
+      }
+      number = number * radix - digit;
     }
 
-    if (negative) {
-      number = -number;
-    }
-
-    return number;
+    return negative ? number : -number;
   }
 }
-- 
2.43.0


From 0763fe5b4bba87f53c7227cbb8c780cdc1132fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 053/211] fix: Integer.reverseBytes swaps the inner bytes

---
 classpath/java/lang/Integer.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Integer.java b/classpath/java/lang/Integer.java
index 6a50dba..72df4b6 100644
--- a/classpath/java/lang/Integer.java
+++ b/classpath/java/lang/Integer.java
@@ -109,8 +109,8 @@ public final class Integer extends Number implements Comparable<Integer> {
 
   public static int reverseBytes(int v) {
     int byte3 =  v >>> 24;
-    int byte2 = (v >>> 8) & 0xFF00;
-    int byte1 = (v <<  8) & 0xFF00;
+    int byte2 = (v >>> 8) & 0x0000FF00;
+    int byte1 = (v <<  8) & 0x00FF0000;
     int byte0 =  v << 24;
     return (byte0 | byte1 | byte2 | byte3);
   }
-- 
2.43.0


From cb8b25515039e4b677c330179750c1ba6b920668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 054/211] fix: Integer.compareTo does not overflow

---
 classpath/java/lang/Integer.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/Integer.java b/classpath/java/lang/Integer.java
index 72df4b6..110f2b9 100644
--- a/classpath/java/lang/Integer.java
+++ b/classpath/java/lang/Integer.java
@@ -43,7 +43,7 @@ public final class Integer extends Number implements Comparable<Integer> {
   }
 
   public int compareTo(Integer other) {
-    return value - other.value;
+    return value < other.value ? -1 : (value > other.value ? 1 : 0);
   }
 
   public String toString() {
-- 
2.43.0


From 36acb139d608f482f4bef02ae599b9b2f6b45468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 055/211] fix: hash codes of Long, Double and Boolean are the
 documented ones

---
 classpath/java/lang/Boolean.java | 2 +-
 classpath/java/lang/Double.java  | 4 ++--
 classpath/java/lang/Long.java    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/classpath/java/lang/Boolean.java b/classpath/java/lang/Boolean.java
index 44ebae2..c7bc42b 100644
--- a/classpath/java/lang/Boolean.java
+++ b/classpath/java/lang/Boolean.java
@@ -44,7 +44,7 @@ public final class Boolean implements Comparable<Boolean> {
   }
 
   public int hashCode() {
-    return (value ? 1 : 0);
+    return (value ? 1231 : 1237);
   }
 
   public String toString() {
diff --git a/classpath/java/lang/Double.java b/classpath/java/lang/Double.java
index ff224dd..d01d7dd 100644
--- a/classpath/java/lang/Double.java
+++ b/classpath/java/lang/Double.java
@@ -43,8 +43,8 @@ public final class Double extends Number {
   }
 
   public int hashCode() {
-    long v = doubleToRawLongBits(value);
-    return (int) ((v >> 32) ^ (v & 0xFF));
+    long v = doubleToLongBits(value);
+    return (int) (v ^ (v >>> 32));
   }
 
   public String toString() {
diff --git a/classpath/java/lang/Long.java b/classpath/java/lang/Long.java
index 832ffb3..e6d0e0d 100644
--- a/classpath/java/lang/Long.java
+++ b/classpath/java/lang/Long.java
@@ -43,7 +43,7 @@ public final class Long extends Number implements Comparable<Long> {
   }
 
   public int hashCode() {
-    return (int) ((value >> 32) ^ (value & 0xFF));
+    return (int) (value ^ (value >>> 32));
   }
 
   public String toString() {
-- 
2.43.0


From c8a6017126ca5c4b82613872eec7568024ebd86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 056/211] fix: Long.toHexString, toOctalString and
 toBinaryString are unsigned

---
 classpath/java/lang/Long.java | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/classpath/java/lang/Long.java b/classpath/java/lang/Long.java
index e6d0e0d..609bf76 100644
--- a/classpath/java/lang/Long.java
+++ b/classpath/java/lang/Long.java
@@ -90,16 +90,29 @@ public final class Long extends Number implements Comparable<Long> {
     return toString(v, 10);
   }
 
+  private static String toUnsignedString(long v, int shift) {
+    int size = 1;
+    for (long n = v >>> shift; n != 0; n >>>= shift) ++size;
+
+    char[] array = new char[size];
+    for (int i = size - 1; i >= 0; --i) {
+      array[i] = Character.forDigit((int) v & ((1 << shift) - 1), 1 << shift);
+      v >>>= shift;
+    }
+
+    return new String(array, 0, size, false);
+  }
+
   public static String toHexString(long v) {
-    return toString(v, 16);
+    return toUnsignedString(v, 4);
   }
 
   public static String toOctalString(long v) {
-    return toString(v, 8);
+    return toUnsignedString(v, 3);
   }
 
   public static String toBinaryString(long v) {
-    return toString(v, 2);
+    return toUnsignedString(v, 1);
   }
 
   public byte byteValue() {
-- 
2.43.0


From 46f42ee37cfcd27219c66f1667d63b6977efceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 057/211] fix: NaN is not infinite

---
 classpath/java-lang.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java-lang.cpp b/classpath/java-lang.cpp
index 75f8908..330e118 100644
--- a/classpath/java-lang.cpp
+++ b/classpath/java-lang.cpp
@@ -1077,7 +1077,7 @@ extern "C" JNIEXPORT jstring JNICALL
 extern "C" JNIEXPORT jboolean JNICALL
     Java_java_lang_Double_isInfinite(JNIEnv*, jclass, jdouble val)
 {
-  return !isfinite(val);
+  return !isfinite(val) && !isnan(val);
 }
 
 extern "C" JNIEXPORT jboolean JNICALL
@@ -1111,7 +1111,7 @@ extern "C" JNIEXPORT jdouble JNICALL
 extern "C" JNIEXPORT jboolean JNICALL
     Java_java_lang_Float_isInfinite(JNIEnv*, jclass, jfloat val)
 {
-  return !isfinite(val);
+  return !isfinite(val) && !isnan(val);
 }
 
 extern "C" JNIEXPORT jboolean JNICALL
-- 
2.43.0


From 69c11abdcc10ad3ac61d5c1ff6b6b0260e389385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 058/211] fix: Boolean(String) and valueOf ignore case as
 parseBoolean does

---
 classpath/java/lang/Boolean.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Boolean.java b/classpath/java/lang/Boolean.java
index c7bc42b..7593879 100644
--- a/classpath/java/lang/Boolean.java
+++ b/classpath/java/lang/Boolean.java
@@ -23,7 +23,7 @@ public final class Boolean implements Comparable<Boolean> {
   }
 
   public Boolean(String s) {
-    this.value = "true".equals(s);
+    this.value = parseBoolean(s);
   }
 
   public static Boolean valueOf(boolean value) {
@@ -32,7 +32,7 @@ public final class Boolean implements Comparable<Boolean> {
 
   public static Boolean valueOf(String s) {
     Boolean.TRUE.booleanValue();
-    return ("true".equals(s) ? Boolean.TRUE : Boolean.FALSE);
+    return (parseBoolean(s) ? Boolean.TRUE : Boolean.FALSE);
   }
 
   public int compareTo(Boolean o) {
-- 
2.43.0


From d9a3b250c32a77a223b94da4b8d9e346190410e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 059/211] fix: Float and Double equal themselves when NaN, and
 -0 differs from 0

---
 classpath/java/lang/Double.java | 3 ++-
 classpath/java/lang/Float.java  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Double.java b/classpath/java/lang/Double.java
index d01d7dd..a2603bb 100644
--- a/classpath/java/lang/Double.java
+++ b/classpath/java/lang/Double.java
@@ -39,7 +39,8 @@ public final class Double extends Number {
   }
 
   public boolean equals(Object o) {
-    return o instanceof Double && ((Double) o).value == value;
+    return o instanceof Double
+      && doubleToLongBits(((Double) o).value) == doubleToLongBits(value);
   }
 
   public int hashCode() {
diff --git a/classpath/java/lang/Float.java b/classpath/java/lang/Float.java
index 3bebc10..778187d 100644
--- a/classpath/java/lang/Float.java
+++ b/classpath/java/lang/Float.java
@@ -41,7 +41,8 @@ public final class Float extends Number {
   }
 
   public boolean equals(Object o) {
-    return o instanceof Float && ((Float) o).value == value;
+    return o instanceof Float
+      && floatToIntBits(((Float) o).value) == floatToIntBits(value);
   }
 
   public int hashCode() {
-- 
2.43.0


From 46bc6945e0145d80c8f5826788ef7fe76a2750be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 060/211] fix: Math.min, max, abs and signum of NaN and of
 zeros

---
 classpath/java/lang/Math.java | 36 +++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/classpath/java/lang/Math.java b/classpath/java/lang/Math.java
index c1d1c0b..c2e7142 100644
--- a/classpath/java/lang/Math.java
+++ b/classpath/java/lang/Math.java
@@ -23,19 +23,39 @@ public final class Math {
   private Math() { }
 
   public static double max(double a, double b) {
-    return (a < b ? b : a);
+    if (a != a) {
+      return a;
+    } else if (a == 0 && b == 0) {
+      return a + b; // positive zero if there is one
+    }
+    return (a > b ? a : b);
   }
 
   public static double min(double a, double b) {
-    return (a > b ? b : a);
+    if (a != a) {
+      return a;
+    } else if (a == 0 && b == 0) {
+      return -(-a - b); // negative zero if there is one
+    }
+    return (a < b ? a : b);
   }
 
   public static float max(float a, float b) {
-    return (a < b ? b : a);
+    if (a != a) {
+      return a;
+    } else if (a == 0 && b == 0) {
+      return a + b; // positive zero if there is one
+    }
+    return (a > b ? a : b);
   }
 
   public static float min(float a, float b) {
-    return (a > b ? b : a);
+    if (a != a) {
+      return a;
+    } else if (a == 0 && b == 0) {
+      return -(-a - b); // negative zero if there is one
+    }
+    return (a < b ? a : b);
   }
 
   public static long max(long a, long b) {
@@ -63,11 +83,11 @@ public final class Math {
   }
 
   public static float abs(float v) {
-    return (v < 0 ? -v : v);
+    return (v <= 0 ? 0 - v : v);
   }
 
   public static double abs(double v) {
-    return (v < 0 ? -v : v);
+    return (v <= 0 ? 0 - v : v);
   }
 
   public static long round(double v) {
@@ -79,11 +99,11 @@ public final class Math {
   }
 
   public static double signum(double d) {
-    return d > 0 ? +1.0 : d < 0 ? -1.0 : 0;
+    return d > 0 ? +1.0 : d < 0 ? -1.0 : d;
   }
 
   public static float signum(float f) {
-    return f > 0 ? +1.0f : f < 0 ? -1.0f : 0;
+    return f > 0 ? +1.0f : f < 0 ? -1.0f : f;
   }
 
   public static double random() {
-- 
2.43.0


From df3cf438bfb3a7489c13031d9e524c1c15243113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 061/211] fix: Math.round of values next to a half and of large
 odd ones

---
 classpath/java/lang/Math.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Math.java b/classpath/java/lang/Math.java
index c2e7142..b4a527d 100644
--- a/classpath/java/lang/Math.java
+++ b/classpath/java/lang/Math.java
@@ -91,11 +91,13 @@ public final class Math {
   }
 
   public static long round(double v) {
-    return (long) Math.floor(v + 0.5);
+    double floor = Math.floor(v);
+    return (long) (v - floor >= 0.5 ? floor + 1 : floor);
   }
 
   public static int round(float v) {
-    return (int) Math.floor(v + 0.5);
+    double floor = Math.floor(v);
+    return (int) (v - floor >= 0.5 ? floor + 1 : floor);
   }
 
   public static double signum(double d) {
-- 
2.43.0


From c15e1a31bbe2f0af3b69ad86c28677ae8cac68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 062/211] fix: Integer.decode handles a plus sign and rejects
 misplaced signs

---
 classpath/java/lang/Integer.java | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/classpath/java/lang/Integer.java b/classpath/java/lang/Integer.java
index 110f2b9..30f3f12 100644
--- a/classpath/java/lang/Integer.java
+++ b/classpath/java/lang/Integer.java
@@ -128,20 +128,23 @@ public final class Integer extends Number implements Comparable<Integer> {
   }
 
   public static Integer decode(String string) {
-    if (string.startsWith("-")) {
-      if (string.startsWith("-0") || string.startsWith("-#")) {
-        return new Integer(-decode(string.substring(1)));
-      }
-    } else if (string.startsWith("0")) {
-      char c = string.length() < 2 ? (char)-1 : string.charAt(1);
-      if (c == 'x' || c == 'X') {
-        return new Integer(parseInt(string.substring(2), 0x10));
-      }
-      return new Integer(parseInt(string, 010));
-    } else if (string.startsWith("#")) {
-      return new Integer(parseInt(string.substring(1), 0x10));
+    int i = string.startsWith("-") || string.startsWith("+") ? 1 : 0;
+    int radix = 10;
+    int digits = i;
+    if (string.startsWith("0x", i) || string.startsWith("0X", i)) {
+      radix = 0x10;
+      digits = i + 2;
+    } else if (string.startsWith("#", i)) {
+      radix = 0x10;
+      digits = i + 1;
+    } else if (string.startsWith("0", i) && string.length() > i + 1) {
+      radix = 010;
+      digits = i + 1;
     }
-    return new Integer(parseInt(string, 10));
+    if (string.startsWith("-", digits) || string.startsWith("+", digits)) {
+      throw new NumberFormatException("sign in wrong place in " + string);
+    }
+    return new Integer(parseInt(string.substring(0, i) + string.substring(digits), radix));
   }
 
   public static int numberOfLeadingZeros(int i) {
-- 
2.43.0


From a02badc66cdb5f9cf205d039bd2274eda2e7f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 063/211] fix: Character.isWhitespace and isSpaceChar of
 control characters

---
 classpath/java/lang/Character.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Character.java b/classpath/java/lang/Character.java
index 89447b2..5c483c8 100644
--- a/classpath/java/lang/Character.java
+++ b/classpath/java/lang/Character.java
@@ -155,11 +155,11 @@ public final class Character implements Comparable<Character> {
   }
 
   public static boolean isWhitespace(char c) {
-    return c == ' ' || c == '\t' || c == '\n' || c == '\r';
+    return c == ' ' || (c >= 9 && c <= 13) || (c >= 28 && c <= 31);
   }
 
   public static boolean isSpaceChar(char c) {
-    return isWhitespace(c);
+    return c == ' ' || c == 0xA0;
   }
 
   public static boolean isHighSurrogate(char ch) {
-- 
2.43.0


From b0e963dfdc05d5b3487411b87495b7a4f9e494de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 064/211] fix: Float.hashCode is the same for every NaN

---
 classpath/java/lang/Float.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/Float.java b/classpath/java/lang/Float.java
index 778187d..2190b89 100644
--- a/classpath/java/lang/Float.java
+++ b/classpath/java/lang/Float.java
@@ -46,7 +46,7 @@ public final class Float extends Number {
   }
 
   public int hashCode() {
-    return floatToRawIntBits(value);
+    return floatToIntBits(value);
   }
 
   public String toString() {
-- 
2.43.0


From 1ba9cefd6d04b29a8c1ab8c7d77bbb13abed61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 065/211] fix: Deflater can finish without having been given
 any input

---
 classpath/java/util/zip/Deflater.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/zip/Deflater.java b/classpath/java/util/zip/Deflater.java
index 7a86294..0ea7936 100644
--- a/classpath/java/util/zip/Deflater.java
+++ b/classpath/java/util/zip/Deflater.java
@@ -20,6 +20,8 @@ public class Deflater {
 //     System.loadLibrary("natives");
 //   }
 
+  private static final byte[] EmptyInput = new byte[0];
+
   private long peer;
   private byte[] input;
   private int offset;
@@ -107,13 +109,13 @@ public class Deflater {
       throw new IllegalStateException();      
     }
 
-    if (input == null || output == null) {
+    if (output == null) {
       throw new NullPointerException();
     }
 
     int[] results = new int[3];
     deflate(peer, 
-            input, this.offset, this.length,
+            input == null ? EmptyInput : input, this.offset, this.length,
             output, offset, length, finish, results);
 
     if (results[zlibResult] < 0) {
-- 
2.43.0


From 0be6fbdb0d0707f2288af752b9b037afcb993b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 066/211] fix: Deflater.reset keeps the compression level

---
 classpath/java/util/zip/Deflater.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/zip/Deflater.java b/classpath/java/util/zip/Deflater.java
index 0ea7936..f9331bb 100644
--- a/classpath/java/util/zip/Deflater.java
+++ b/classpath/java/util/zip/Deflater.java
@@ -30,9 +30,11 @@ public class Deflater {
   private boolean finished;
   private final boolean nowrap;
   private boolean finish;
+  private int level;
 
   public Deflater(int level, boolean nowrap) {
     this.nowrap = nowrap;
+    this.level = level;
     peer = make(nowrap, level);
   }
 
@@ -74,6 +76,7 @@ public class Deflater {
     }
 
     dispose(peer);
+    this.level = level;
     peer = make(nowrap, level);
   }
   
@@ -89,7 +92,7 @@ public class Deflater {
 
   public void reset() {
     dispose();
-    peer = make(nowrap, DEFAULT_LEVEL);
+    peer = make(nowrap, level);
     input = null;
     offset = length = 0;
     finish = false;
-- 
2.43.0


From 535d7d23d7691f70b11774836e899b58e2584283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 067/211] fix: ZipOutputStream writes the length of the encoded
 entry name

---
 classpath/java/util/zip/ZipOutputStream.java | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/classpath/java/util/zip/ZipOutputStream.java b/classpath/java/util/zip/ZipOutputStream.java
index e5b929a..91208fa 100644
--- a/classpath/java/util/zip/ZipOutputStream.java
+++ b/classpath/java/util/zip/ZipOutputStream.java
@@ -35,7 +35,7 @@ import java.util.zip.Deflater;
 public class ZipOutputStream extends DeflaterOutputStream {
   private static final int SIGNATURE =                    0x04034b50;
   private static final short VERSION =                    0x0014;
-  private static final short BITFLAG =                    0x0008;
+  private static final short BITFLAG =                    0x0808;
   private static final short METHOD =                     0x0008;
   private static final int CENTRAL_FILE_HEADER =          0x02014b50;
   private static final int DATA_DESCRIPTER_HEADER =       0x08074b50;
@@ -120,7 +120,7 @@ public class ZipOutputStream extends DeflaterOutputStream {
 
     addFourBytes(SIGNATURE, 0, tmpBuffer);        // local header signature
     addTwoBytes(VERSION, 4, tmpBuffer);           // version used
-    addTwoBytes(BITFLAG, 6, tmpBuffer);           // flags
+    addTwoBytes(BITFLAG, 6, tmpBuffer);           // flags: data descriptor, UTF-8 name
     addTwoBytes(METHOD, 8, tmpBuffer);            // compression method
     addFourBytes(e.modTimeDate, 10, tmpBuffer);   // last mod date and time 
     addFourBytes(0, 14, tmpBuffer);               // CRC is 0 for local header
@@ -129,7 +129,7 @@ public class ZipOutputStream extends DeflaterOutputStream {
     // is written here as 0 and written correctly in the data descripter
     addFourBytes(0, 18, tmpBuffer);               // compressed size
     addFourBytes(0, 22, tmpBuffer);               // uncompressed size
-    addTwoBytes(e.name.length(), 26, tmpBuffer);  // length of file name
+    addTwoBytes(e.getName().getBytes("UTF-8").length, 26, tmpBuffer);  // length of file name
 
     // extra field length, in this implementation extra field in not used
     addTwoBytes(0, 28, tmpBuffer);
@@ -167,7 +167,7 @@ public class ZipOutputStream extends DeflaterOutputStream {
     addFourBytes((int)e.compSize, 20, tmpBuffer);          // compressed size
     addFourBytes((int)e.uncompSize, 24, tmpBuffer);        // uncompressed size
    
-    addTwoBytes(e.getName().length(), 28, tmpBuffer); // file name length
+    addTwoBytes(e.getName().getBytes("UTF-8").length, 28, tmpBuffer); // file name length
 
     // the following 5 fields are all 0 for a simple default compression
     addTwoBytes(0, 30, tmpBuffer);                    // extra field length (not used)
-- 
2.43.0


From bef763447ce040d1a326094cb3dc59137379fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 068/211] fix: ZipOutputStream keeps single bytes and arrays
 written in order

---
 classpath/java/util/zip/ZipOutputStream.java | 27 +++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/classpath/java/util/zip/ZipOutputStream.java b/classpath/java/util/zip/ZipOutputStream.java
index 91208fa..a6505f2 100644
--- a/classpath/java/util/zip/ZipOutputStream.java
+++ b/classpath/java/util/zip/ZipOutputStream.java
@@ -71,10 +71,7 @@ public class ZipOutputStream extends DeflaterOutputStream {
   
   public void closeEntry() throws IOException {
     // write remainder of buffer if partially full
-    if (bufferIndex != 0) {
-      write(inputBuffer, 0, bufferIndex);
-      bufferIndex = 0;
-    }
+    writeBuffered();
 
     finish();
 
@@ -88,6 +85,19 @@ public class ZipOutputStream extends DeflaterOutputStream {
     if (offset < 0 || length < 0 || b.length - (offset + length) < 0)
       throw new IndexOutOfBoundsException();
 
+    writeBuffered();
+    deflate(b, offset, length);
+  }
+
+  private void writeBuffered() throws IOException {
+    int length = bufferIndex;
+    bufferIndex = 0;
+    if (length != 0) {
+      deflate(inputBuffer, 0, length);
+    }
+  }
+
+  private void deflate(byte[] b, int offset, int length) throws IOException {
     currentEntry.uncompSize += length;
     crc.update(b, offset, length);
     currentEntry.crc = (int) crc.getValue();
@@ -101,9 +111,8 @@ public class ZipOutputStream extends DeflaterOutputStream {
   public void write(int b) throws IOException {
     inputBuffer[bufferIndex] = (byte)(b & 0xff);
     bufferIndex += 1;
-    if (bufferIndex == 1024) {
-      write(inputBuffer, 0, bufferIndex);
-      bufferIndex = 0;
+    if (bufferIndex == INPUT_BUFFER_SIZE) {
+      writeBuffered();
     }
   }
 
@@ -214,8 +223,8 @@ public class ZipOutputStream extends DeflaterOutputStream {
 
   @Override
   public void flush() throws IOException {
-    out.write(inputBuffer, 0, inputBuffer.length);
-    inputBuffer = new byte[INPUT_BUFFER_SIZE];
+    writeBuffered();
+    out.flush();
   }
 
   private void finish() throws IOException {
-- 
2.43.0


From 9e5c73864643fa54787330972543d2f16b0ae43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 069/211] fix: InflaterInputStream delivers all output after
 the last input was consumed

---
 classpath/java/util/zip/Deflater.java         |  3 ++-
 classpath/java/util/zip/Inflater.java         |  9 +++++---
 .../java/util/zip/InflaterInputStream.java    | 23 +++++++++++--------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/classpath/java/util/zip/Deflater.java b/classpath/java/util/zip/Deflater.java
index f9331bb..d3d1e11 100644
--- a/classpath/java/util/zip/Deflater.java
+++ b/classpath/java/util/zip/Deflater.java
@@ -14,6 +14,7 @@ public class Deflater {
   private static final int DEFAULT_LEVEL = 6; // default compression level (6 is default for gzip)
   private static final int Z_OK = 0;
   private static final int Z_STREAM_END = 1;
+  private static final int Z_BUF_ERROR = -5; // no progress possible
   private static final int Z_NEED_DICT = 2;
 
 //   static {
@@ -121,7 +122,7 @@ public class Deflater {
             input == null ? EmptyInput : input, this.offset, this.length,
             output, offset, length, finish, results);
 
-    if (results[zlibResult] < 0) {
+    if (results[zlibResult] < 0 && results[zlibResult] != Z_BUF_ERROR) {
       throw new AssertionError();
     }
 
diff --git a/classpath/java/util/zip/Inflater.java b/classpath/java/util/zip/Inflater.java
index 2c0b7e0..20908ef 100644
--- a/classpath/java/util/zip/Inflater.java
+++ b/classpath/java/util/zip/Inflater.java
@@ -13,12 +13,15 @@ package java.util.zip;
 public class Inflater {
   private static final int Z_OK = 0;
   private static final int Z_STREAM_END = 1;
+  private static final int Z_BUF_ERROR = -5; // no progress possible
   private static final int Z_NEED_DICT = 2;
 
 //   static {
 //     System.loadLibrary("natives");
 //   }
 
+  private static final byte[] EmptyInput = new byte[0];
+
   private long peer;
   private byte[] input;
   private int offset;
@@ -93,15 +96,15 @@ public class Inflater {
       throw new IllegalStateException();      
     }
 
-    if (input == null || output == null) {
+    if (output == null) {
       throw new NullPointerException();
     }
 
     int[] results = new int[3];
-    inflate(peer, input, this.offset, this.length,
+    inflate(peer, input == null ? EmptyInput : input, this.offset, this.length,
             output, offset, length, results);
 
-    if (results[zlibResult] < 0) {
+    if (results[zlibResult] < 0 && results[zlibResult] != Z_BUF_ERROR) {
       throw new DataFormatException();
     }
 
diff --git a/classpath/java/util/zip/InflaterInputStream.java b/classpath/java/util/zip/InflaterInputStream.java
index fcefaec..0d758c7 100644
--- a/classpath/java/util/zip/InflaterInputStream.java
+++ b/classpath/java/util/zip/InflaterInputStream.java
@@ -45,16 +45,12 @@ public class InflaterInputStream extends InputStream {
       return -1;
     }
 
-    while (true) {
-      if (inflater.needsInput()) {
-        int count = in.read(buffer);
-        if (count > 0) {
-          inflater.setInput(buffer, 0, count);
-        } else {
-          throw new EOFException();
-        }
-      }
+    if (length == 0) {
+      return 0;
+    }
 
+    while (true) {
+      // there may be output left even if all input has been consumed
       try {
         int count = inflater.inflate(b, offset, length);
         if (count > 0) {
@@ -67,6 +63,15 @@ public class InflaterInputStream extends InputStream {
       } catch (DataFormatException e) {
         throw new IOException(e);
       }
+
+      if (inflater.needsInput()) {
+        int count = in.read(buffer);
+        if (count > 0) {
+          inflater.setInput(buffer, 0, count);
+        } else {
+          throw new EOFException();
+        }
+      }
     }
   }
 
-- 
2.43.0


From 645e898a777f27c33f31652a05413e015835dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 070/211] fix: readFloat and readDouble give the value whose
 bits were read

---
 classpath/java/io/DataInputStream.java  | 4 ++--
 classpath/java/io/RandomAccessFile.java | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/classpath/java/io/DataInputStream.java b/classpath/java/io/DataInputStream.java
index a80d93c..f1f9a6b 100644
--- a/classpath/java/io/DataInputStream.java
+++ b/classpath/java/io/DataInputStream.java
@@ -73,11 +73,11 @@ public class DataInputStream extends InputStream implements DataInput {
   }
 
   public float readFloat() throws IOException {
-    return Float.floatToIntBits(readInt());
+    return Float.intBitsToFloat(readInt());
   }
 
   public double readDouble() throws IOException {
-    return Double.doubleToLongBits(readLong());
+    return Double.longBitsToDouble(readLong());
   }
 
   public long readLong() throws IOException {
diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 4739b9e..11fad30 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -165,11 +165,11 @@ public class RandomAccessFile implements DataInput, Closeable {
   }
 
   public float readFloat() throws IOException {
-    return Float.floatToIntBits(readInt());
+    return Float.intBitsToFloat(readInt());
   }
 
   public double readDouble() throws IOException {
-    return Double.doubleToLongBits(readLong());
+    return Double.longBitsToDouble(readLong());
   }
 
   public long readLong() throws IOException {
-- 
2.43.0


From e0f71e7c35330935eb303041c029e3927a65ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 071/211] fix: PrintStream and PrintWriter print null

---
 classpath/java/io/PrintStream.java | 4 ++--
 classpath/java/io/PrintWriter.java | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/classpath/java/io/PrintStream.java b/classpath/java/io/PrintStream.java
index eda3fea..441dc3a 100644
--- a/classpath/java/io/PrintStream.java
+++ b/classpath/java/io/PrintStream.java
@@ -41,7 +41,7 @@ public class PrintStream extends OutputStream {
 
   public synchronized void print(String s) {
     try {
-      out.write(s.getBytes());
+      out.write(String.valueOf(s).getBytes());
       if (autoFlush) flush();
     } catch (IOException e) { }
   }
@@ -101,7 +101,7 @@ public class PrintStream extends OutputStream {
 
   public synchronized void println(String s) {
     try {
-      out.write(s.getBytes());    
+      out.write(String.valueOf(s).getBytes());
       out.write(Static.newline);
       if (autoFlush) flush();
     } catch (IOException e) { }
diff --git a/classpath/java/io/PrintWriter.java b/classpath/java/io/PrintWriter.java
index 604368d..67a0968 100644
--- a/classpath/java/io/PrintWriter.java
+++ b/classpath/java/io/PrintWriter.java
@@ -36,12 +36,12 @@ public class PrintWriter extends Writer {
 
   public synchronized void print(String s) {
     try {
-      out.write(s.toCharArray());
+      out.write(String.valueOf(s).toCharArray());
     } catch (IOException e) { }
   }
 
   public void print(Object o) {
-    print(o.toString());
+    print(String.valueOf(o));
   }
 
   public void print(char c) {
@@ -50,7 +50,7 @@ public class PrintWriter extends Writer {
 
   public synchronized void println(String s) {
     try {
-      out.write(s.toCharArray());    
+      out.write(String.valueOf(s).toCharArray());
       out.write(newline);
       if (autoFlush) flush();
     } catch (IOException e) { }
@@ -64,7 +64,7 @@ public class PrintWriter extends Writer {
   }
 
   public void println(Object o) {
-    println(o.toString());
+    println(String.valueOf(o));
   }
 
   public void println(char c) {
-- 
2.43.0


From f9531ec7fc297397031492a2d08da5f4fc7be93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 072/211] fix: File.mkdir is false for a directory which exists

---
 classpath/java-io.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/classpath/java-io.cpp b/classpath/java-io.cpp
index dc76e5f..8bd1b27 100644
--- a/classpath/java-io.cpp
+++ b/classpath/java-io.cpp
@@ -350,11 +350,9 @@ extern "C" JNIEXPORT void JNICALL
 {
   string_t chars = getChars(e, path);
   if (chars) {
-    if (not exists(chars)) {
-      int r = ::MKDIR(chars, 0777);
-      if (r != 0) {
-        throwNewErrno(e, "java/io/IOException");
-      }
+    int r = ::MKDIR(chars, 0777);
+    if (r != 0) {
+      throwNewErrno(e, "java/io/IOException");
     }
     releaseChars(e, path, chars);
   }
-- 
2.43.0


From de213417eb45086bb8a99349f7ad33781a981773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 073/211] fix: LineNumberReader.readLine counts the line

---
 classpath/java/io/LineNumberReader.java | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/classpath/java/io/LineNumberReader.java b/classpath/java/io/LineNumberReader.java
index f8860f4..f5ee259 100644
--- a/classpath/java/io/LineNumberReader.java
+++ b/classpath/java/io/LineNumberReader.java
@@ -29,6 +29,14 @@ public class LineNumberReader extends BufferedReader {
     line = v;
   }
   
+  public String readLine() throws IOException {
+    String s = super.readLine();
+    if (s != null) {
+      ++ line;
+    }
+    return s;
+  }
+
   public int read(char[] b, int offset, int length) throws IOException {
     int c = super.read(b, offset, length);
     for (int i = 0; i < c; ++i) {
-- 
2.43.0


From e3671a66af2a94c8ac097d77955e9bdfb9fb127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 074/211] fix: writeUTF and readUTF use modified UTF-8

---
 classpath/avian/Utf8.java               | 49 +++++++++++++++++++++++++
 classpath/java/io/DataInputStream.java  |  6 ++-
 classpath/java/io/DataOutputStream.java |  5 ++-
 classpath/java/io/RandomAccessFile.java |  6 ++-
 4 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/classpath/avian/Utf8.java b/classpath/avian/Utf8.java
index bfadcfe..096ef75 100644
--- a/classpath/avian/Utf8.java
+++ b/classpath/avian/Utf8.java
@@ -49,6 +49,55 @@ public class Utf8 {
     return buf.toByteArray();
   }
 
+  /** The modified UTF-8 of DataOutput: no zero bytes, surrogates encoded one by one. */
+  public static byte[] encodeModified(String s) {
+    int length = 0;
+    for (int i = 0; i < s.length(); ++i) {
+      char c = s.charAt(i);
+      length += c != 0 && c < 0x80 ? 1 : (c < 0x800 ? 2 : 3);
+    }
+
+    byte[] bytes = new byte[length];
+    int j = 0;
+    for (int i = 0; i < s.length(); ++i) {
+      char c = s.charAt(i);
+      if (c != 0 && c < 0x80) {
+        bytes[j++] = (byte) c;
+      } else if (c < 0x800) {
+        bytes[j++] = (byte) (0xC0 | (c >> 6));
+        bytes[j++] = (byte) (0x80 | (c & 0x3F));
+      } else {
+        bytes[j++] = (byte) (0xE0 | (c >> 12));
+        bytes[j++] = (byte) (0x80 | ((c >> 6) & 0x3F));
+        bytes[j++] = (byte) (0x80 | (c & 0x3F));
+      }
+    }
+    return bytes;
+  }
+
+  /** Decodes modified UTF-8; null if it is malformed. */
+  public static String decodeModified(byte[] s) {
+    char[] chars = new char[s.length];
+    int length = 0;
+    for (int i = 0; i < s.length;) {
+      int a = s[i] & 0xFF;
+      int size = a < 0x80 ? 1 : ((a & 0xE0) == 0xC0 ? 2 : ((a & 0xF0) == 0xE0 ? 3 : 0));
+      if (size == 0 || i + size > s.length) {
+        return null;
+      }
+      int c = size == 1 ? a : (size == 2 ? a & 0x1F : a & 0xF);
+      for (int j = 1; j < size; ++j) {
+        if ((s[i + j] & 0xC0) != 0x80) {
+          return null;
+        }
+        c = (c << 6) | (s[i + j] & 0x3F);
+      }
+      chars[length++] = (char) c;
+      i += size;
+    }
+    return new String(chars, 0, length);
+  }
+
   public static Object decode(byte[] s8, int offset, int length) {
     Object buf = new byte[length];
     boolean isMultiByte = false;
diff --git a/classpath/java/io/DataInputStream.java b/classpath/java/io/DataInputStream.java
index f1f9a6b..72d3787 100644
--- a/classpath/java/io/DataInputStream.java
+++ b/classpath/java/io/DataInputStream.java
@@ -100,7 +100,11 @@ public class DataInputStream extends InputStream implements DataInput {
     int length = readUnsignedShort();
     byte[] bytes = new byte[length];
     readFully(bytes);
-    return new String(bytes, "UTF-8");
+    String s = avian.Utf8.decodeModified(bytes);
+    if (s == null) {
+      throw new UTFDataFormatException();
+    }
+    return s;
   }
 
   @Deprecated
diff --git a/classpath/java/io/DataOutputStream.java b/classpath/java/io/DataOutputStream.java
index 0bec001..6ffdc86 100644
--- a/classpath/java/io/DataOutputStream.java
+++ b/classpath/java/io/DataOutputStream.java
@@ -92,7 +92,10 @@ public class DataOutputStream extends OutputStream implements DataOutput {
   }
 
   public void writeUTF(String s) throws IOException {
-    byte[] bytes = s.getBytes("UTF-8");
+    byte[] bytes = avian.Utf8.encodeModified(s);
+    if (bytes.length > 65535) {
+      throw new UTFDataFormatException();
+    }
     writeShort((short)bytes.length);
     out.write(bytes);
   }
diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 11fad30..ffb0028 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -192,7 +192,11 @@ public class RandomAccessFile implements DataInput, Closeable {
     int length = readUnsignedShort();
     byte[] bytes = new byte[length];
     readFully(bytes);
-    return new String(bytes, "UTF-8");
+    String s = avian.Utf8.decodeModified(bytes);
+    if (s == null) {
+      throw new UTFDataFormatException();
+    }
+    return s;
   }
 
   @Deprecated
-- 
2.43.0


From 91dd2ec06cdd4d349e45e3b74f74747c0d6cb0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 075/211] fix: BufferedReader.readLine handles a line end split
 across two buffers

---
 classpath/java/io/BufferedReader.java | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/classpath/java/io/BufferedReader.java b/classpath/java/io/BufferedReader.java
index 8d5a69b..5ce3e3b 100644
--- a/classpath/java/io/BufferedReader.java
+++ b/classpath/java/io/BufferedReader.java
@@ -15,6 +15,7 @@ public class BufferedReader extends Reader {
   private final char[] buffer;
   private int position;
   private int limit;
+  private boolean skipLineFeed;
 
   public BufferedReader(Reader in, int bufferSize) {
     this.in = in;
@@ -26,8 +27,17 @@ public class BufferedReader extends Reader {
   }
   
   private void fill() throws IOException {
-    position = 0;
-    limit = in.read(buffer);
+    do {
+      position = 0;
+      limit = in.read(buffer);
+      if (skipLineFeed && limit > 0) {
+        // the buffer before this one ended with the first half of "\r\n"
+        skipLineFeed = false;
+        if (buffer[0] == '\n') {
+          position = 1;
+        }
+      }
+    } while (limit > 0 && position == limit);
   }
 
   public String readLine() throws IOException {
@@ -45,8 +55,12 @@ public class BufferedReader extends Reader {
         if(buffer[i] == '\r') {
           sb.append(buffer, position, i - position);
           position = i + 1;
-          if(i+1 < limit && buffer[i+1] == '\n') {
-            position = i + 2;
+          if(i+1 < limit) {
+            if (buffer[i+1] == '\n') {
+              position = i + 2;
+            }
+          } else {
+            skipLineFeed = true;
           }
           return sb.toString();
         } else if (buffer[i] == '\n') {
@@ -63,7 +77,7 @@ public class BufferedReader extends Reader {
   public int read(char[] b, int offset, int length) throws IOException {
     int count = 0;
 
-    if (position >= limit && length < buffer.length) {
+    if (position >= limit && (skipLineFeed || length < buffer.length)) {
       fill();
     }
 
-- 
2.43.0


From e8659a4d540ca3d91c923d163f397aa27043be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 076/211] fix: File accepts a null parent

---
 classpath/java/io/File.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/File.java b/classpath/java/io/File.java
index 10c3314..a759a2b 100644
--- a/classpath/java/io/File.java
+++ b/classpath/java/io/File.java
@@ -40,11 +40,11 @@ public class File implements Serializable {
   }
 
   public File(String parent, String child) {
-    this(parent + FileSeparator + child);
+    this(parent == null ? child : parent + FileSeparator + child);
   }
 
   public File(File parent, String child) {
-    this(parent.getPath() + FileSeparator + child);
+    this(parent == null ? null : parent.getPath(), child);
   }
 
   public static File createTempFile(String prefix, String suffix)
-- 
2.43.0


From 6cc9abcc3b5e3b6eed2cffa0f0ede3adc155cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 077/211] fix: opening a file which cannot be opened, or a
 directory, throws FileNotFoundException

---
 classpath/java-io.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/classpath/java-io.cpp b/classpath/java-io.cpp
index 8bd1b27..b512bb9 100644
--- a/classpath/java-io.cpp
+++ b/classpath/java-io.cpp
@@ -142,12 +142,18 @@ inline int doOpen(JNIEnv* e, string_t path, int mask)
 {
   int fd = OPEN(path, mask | OPEN_MASK, S_IRUSR | S_IWUSR);
   if (fd == -1) {
-    if (errno == ENOENT) {
-      throwNewErrno(e, "java/io/FileNotFoundException");
-    } else {
-      throwNewErrno(e, "java/io/IOException");
-    }
+    throwNewErrno(e, "java/io/FileNotFoundException");
+  }
+#ifndef PLATFORM_WINDOWS
+  struct ::stat fileStats;
+  if (fd != -1 and ::fstat(fd, &fileStats) == 0
+      and S_ISDIR(fileStats.st_mode)) {
+    CLOSE(fd);
+    errno = EISDIR;
+    throwNewErrno(e, "java/io/FileNotFoundException");
+    return -1;
   }
+#endif
   return fd;
 }
 
@@ -856,7 +862,7 @@ extern "C" JNIEXPORT void JNICALL
 #endif
     releaseChars(e, path, chars);
     if (fd == -1) {
-      throwNewErrno(e, "java/io/IOException");
+      throwNewErrno(e, "java/io/FileNotFoundException");
       return;
     }
     struct ::stat fileStats;
-- 
2.43.0


From 331fb9f8ad162829aeb9a205dfe2cd22917d4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 078/211] fix: FileInputStream.read stores only the bytes which
 were read

---
 classpath/java-io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classpath/java-io.cpp b/classpath/java-io.cpp
index b512bb9..2497dc4 100644
--- a/classpath/java-io.cpp
+++ b/classpath/java-io.cpp
@@ -774,7 +774,9 @@ extern "C" JNIEXPORT jint JNICALL
 
   int r = doRead(e, fd, data, length);
 
-  e->SetByteArrayRegion(b, offset, length, data);
+  if (r > 0) {
+    e->SetByteArrayRegion(b, offset, r, data);
+  }
 
   free(data);
 
-- 
2.43.0


From 6e8e23ae6936cdd3ceced5accea9fd59f289e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 079/211] fix: RandomAccessFile.readShort and readInt with
 bytes of 128 and more

---
 classpath/java/io/RandomAccessFile.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index ffb0028..16cfaa0 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -155,13 +155,14 @@ public class RandomAccessFile implements DataInput, Closeable {
   public short readShort() throws IOException {
     final byte[] buffer = new byte[2];
     readFully(buffer);
-    return (short)((buffer[0] << 8) | buffer[1]);
+    return (short)((buffer[0] << 8) | (buffer[1] & 0xff));
   }
 
   public int readInt() throws IOException {
     byte[] buf = new byte[4];
     readFully(buf);
-    return ((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
+    return ((buf[0] << 24) | ((buf[1] & 0xff) << 16)
+            | ((buf[2] & 0xff) << 8) | (buf[3] & 0xff));
   }
 
   public float readFloat() throws IOException {
-- 
2.43.0


From 5b6ab6966fff7f5af4a2ea057c60af1dcaf65a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 080/211] fix: RandomAccessFile.read gives what there is and -1
 at the end of the file

---
 classpath/java/io/RandomAccessFile.java | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 16cfaa0..7415dc5 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -83,27 +83,19 @@ public class RandomAccessFile implements DataInput, Closeable {
       throw new IOException();
     if(len == 0)
       return 0;
-    if (position + len > this.length)
-      throw new EOFException();
     if (off < 0 || off + len > b.length)
       throw new ArrayIndexOutOfBoundsException();
+    if (position >= this.length)
+      return -1;
+    if (len > this.length - position)
+      len = (int) (this.length - position);
     int bytesRead = readBytes(peer, position, b, off, len);
     position += bytesRead;
     return bytesRead;
   }
   
   public int read(byte b[]) throws IOException {
-    if(b == null)
-      throw new IllegalArgumentException();
-    if (peer == 0)
-      throw new IOException();
-    if(b.length == 0)
-      return 0;
-    if (position + b.length > this.length)
-      throw new EOFException();
-    int bytesRead = readBytes(peer, position, b, 0, b.length);
-    position += bytesRead;
-    return bytesRead;
+    return read(b, 0, b.length);
   }
 
   public void readFully(byte b[], int off, int len) throws IOException {
-- 
2.43.0


From 6f0de1b35723970b5c41eca9b9c21f0019c59c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 081/211] fix: RandomAccessFile.skipBytes stops at the end of
 the file, seek may go beyond it

---
 classpath/java/io/RandomAccessFile.java | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 7415dc5..97ce926 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -65,13 +65,16 @@ public class RandomAccessFile implements DataInput, Closeable {
   }
 
   public void seek(long position) throws IOException {
-    if (position < 0 || (!allowWrite && position > length())) throw new IOException();
+    if (position < 0) throw new IOException();
 
     this.position = position;
   }
 
   public int skipBytes(int count) throws IOException {
-    if (position + count > length()) throw new IOException();
+    if (count <= 0) return 0;
+    long remaining = length() - position;
+    if (remaining <= 0) return 0;
+    if (count > remaining) count = (int) remaining;
     this.position = position + count;
     return count;
   }
-- 
2.43.0


From fd9a1374e7b92d720d1afc0789eca9bec3eaa86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 082/211] fix: File collapses repeated separators

---
 classpath/java/io/File.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/classpath/java/io/File.java b/classpath/java/io/File.java
index a759a2b..f34b0a6 100644
--- a/classpath/java/io/File.java
+++ b/classpath/java/io/File.java
@@ -100,6 +100,9 @@ public class File implements Serializable {
       // remove a leading slash on Windows
       path = path.substring(1);
     }
+    for (int i; (i = path.indexOf("//")) >= 0;) {
+      path = path.substring(0, i) + path.substring(i + 1);
+    }
     return stripSeparators
       ("\\".equals(FileSeparator) ? path.replace('/', '\\') : path);
   }
-- 
2.43.0


From 338e2610dcc6b490ee88a1bd3bc827cc784c36a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 083/211] fix: RandomAccessFile reads back what it wrote beyond
 the old end

---
 classpath/java/io/RandomAccessFile.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 97ce926..6d62d11 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -216,6 +216,7 @@ public class RandomAccessFile implements DataInput, Closeable {
   public void write(int b) throws IOException {
     int count = writeBytes(peer, position, new byte[] { (byte)b }, 0, 1);
     if (count > 0) position += count;
+    if (position > length) length = position;
   }
 
   private static native int writeBytes(long peer, long position, byte[] buffer,
-- 
2.43.0


From 0514a65faaecc37fa8148ec13f45cb3363f1bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 084/211] fix: the root directory has no parent

---
 classpath/java/io/File.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/io/File.java b/classpath/java/io/File.java
index f34b0a6..e66b192 100644
--- a/classpath/java/io/File.java
+++ b/classpath/java/io/File.java
@@ -178,7 +178,7 @@ public class File implements Serializable {
     int index = path.lastIndexOf(FileSeparator);
     if (index > 0) {
       return normalize(path.substring(0, index));
-    } else if (index == 0) {
+    } else if (index == 0 && path.length() > FileSeparator.length()) {
       return normalize(path.substring(0, FileSeparator.length()));
     } else {
       return null;
-- 
2.43.0


From fdca168e1686f6f1da7ea3d5c098e647808d280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 085/211] fix: FileChannel reads and writes advance the buffer

---
 classpath/java/io/RandomAccessFile.java | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 6d62d11..e0e3498 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -245,7 +245,11 @@ public class RandomAccessFile implements DataInput, Closeable {
         if (!dst.hasArray()) throw new IOException("Cannot handle " + dst.getClass());
 	// TODO: this needs to be synchronized on the Buffer, no?
         byte[] array = dst.array();
-        return readBytes(peer, position, array, dst.position(), dst.remaining());
+        if (!dst.hasRemaining()) return 0;
+        int count = readBytes(peer, position, array, dst.arrayOffset() + dst.position(), dst.remaining());
+        if (count <= 0) return -1;
+        dst.position(dst.position() + count);
+        return count;
       }
 
       public int read(ByteBuffer dst) throws IOException {
@@ -257,7 +261,12 @@ public class RandomAccessFile implements DataInput, Closeable {
       public int write(ByteBuffer src, long position) throws IOException {
         if (!src.hasArray()) throw new IOException("Cannot handle " + src.getClass());
         byte[] array = src.array();
-        return writeBytes(peer, position, array, src.position(), src.remaining());
+        int count = writeBytes(peer, position, array, src.arrayOffset() + src.position(), src.remaining());
+        if (count > 0) {
+          src.position(src.position() + count);
+          if (position + count > length) length = position + count;
+        }
+        return count;
       }
 
       public int write(ByteBuffer src) throws IOException {
-- 
2.43.0


From 30aad45af3f40cd71555f856534a87274620c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 086/211] fix: a slice of a writable buffer is writable

---
 classpath/java/nio/ArrayByteBuffer.java      | 2 +-
 classpath/java/nio/ArrayCharBuffer.java      | 2 +-
 classpath/java/nio/DirectByteBuffer.java     | 2 +-
 classpath/java/nio/FixedArrayByteBuffer.java | 3 ++-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/classpath/java/nio/ArrayByteBuffer.java b/classpath/java/nio/ArrayByteBuffer.java
index d0e41a2..8609725 100644
--- a/classpath/java/nio/ArrayByteBuffer.java
+++ b/classpath/java/nio/ArrayByteBuffer.java
@@ -41,7 +41,7 @@ class ArrayByteBuffer extends ByteBuffer {
 
   public ByteBuffer slice() {
     return new ArrayByteBuffer
-      (array, arrayOffset + position, remaining(), true);
+      (array, arrayOffset + position, remaining(), isReadOnly());
   }
 
   public int arrayOffset() {
diff --git a/classpath/java/nio/ArrayCharBuffer.java b/classpath/java/nio/ArrayCharBuffer.java
index a4e93aa..83dca73 100644
--- a/classpath/java/nio/ArrayCharBuffer.java
+++ b/classpath/java/nio/ArrayCharBuffer.java
@@ -41,7 +41,7 @@ class ArrayCharBuffer extends CharBuffer {
 
   public CharBuffer slice() {
     return new ArrayCharBuffer
-      (array, arrayOffset + position, remaining(), true);
+      (array, arrayOffset + position, remaining(), isReadOnly());
   }
 
   public int arrayOffset() {
diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index ede7074..3b940da 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -39,7 +39,7 @@ class DirectByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer slice() {
-    return new DirectByteBuffer(address + position, remaining(), true);
+    return new DirectByteBuffer(address + position, remaining(), isReadOnly());
   }
 
   protected void doPut(int position, byte val) {
diff --git a/classpath/java/nio/FixedArrayByteBuffer.java b/classpath/java/nio/FixedArrayByteBuffer.java
index d433e32..697876b 100644
--- a/classpath/java/nio/FixedArrayByteBuffer.java
+++ b/classpath/java/nio/FixedArrayByteBuffer.java
@@ -44,7 +44,8 @@ class FixedArrayByteBuffer extends DirectByteBuffer {
 
   public ByteBuffer slice() {
     return new FixedArrayByteBuffer
-      (address + position, array, arrayOffset + position, remaining(), true);
+      (address + position, array, arrayOffset + position, remaining(),
+       isReadOnly());
   }
   
   @Override
-- 
2.43.0


From bdbcd201333a4cfef73211ee81790b1366ecd89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 087/211] fix: DirectByteBuffer.get(byte[], int, int) advances
 the position

---
 classpath/java/nio/DirectByteBuffer.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index 3b940da..0074a16 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -89,6 +89,8 @@ class DirectByteBuffer extends ByteBuffer {
     unsafe.copyMemory
       (null, address + position, dst, baseOffset + offset, length);
 
+    position += length;
+
     return this;
   }
 
-- 
2.43.0


From ff3dbb6dcb224b93a505432b35be58d01e275466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 088/211] fix: a wrapped part of an array has the array's
 capacity, negative indices are refused

---
 classpath/java/nio/ByteBuffer.java | 12 +++++++++---
 classpath/java/nio/CharBuffer.java | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index fddb064..c583d22 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -32,7 +32,13 @@ public abstract class ByteBuffer
   }
 
   public static ByteBuffer wrap(byte[] array, int offset, int length) {
-    return new ArrayByteBuffer(array, offset, length, false);
+    if (offset < 0 || length < 0 || length > array.length - offset) {
+      throw new IndexOutOfBoundsException();
+    }
+    ByteBuffer b = new ArrayByteBuffer(array, 0, array.length, false);
+    b.limit(offset + length);
+    b.position(offset);
+    return b;
   }
 
   public abstract ByteBuffer asReadOnlyBuffer();
@@ -311,7 +317,7 @@ public abstract class ByteBuffer
       throw new ReadOnlyBufferException();
     }
 
-    if (position < 0 || position+amount > limit) {
+    if (position < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferOverflowException();
@@ -319,7 +325,7 @@ public abstract class ByteBuffer
   }
 
   protected void checkGet(int position, int amount, boolean absolute) {
-    if (amount > limit-position) {
+    if (position < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferUnderflowException();
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 1d92de5..9f0caa4 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -29,7 +29,13 @@ public abstract class CharBuffer
   }
 
   public static CharBuffer wrap(char[] array, int offset, int length) {
-    return new ArrayCharBuffer(array, offset, length, false);
+    if (offset < 0 || length < 0 || length > array.length - offset) {
+      throw new IndexOutOfBoundsException();
+    }
+    CharBuffer b = new ArrayCharBuffer(array, 0, array.length, false);
+    b.limit(offset + length);
+    b.position(offset);
+    return b;
   }
 
   public abstract CharBuffer asReadOnlyBuffer();
@@ -137,7 +143,7 @@ public abstract class CharBuffer
       throw new ReadOnlyBufferException();
     }
 
-    if (position < 0 || position+amount > limit) {
+    if (position < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferOverflowException();
@@ -145,7 +151,7 @@ public abstract class CharBuffer
   }
 
   protected void checkGet(int position, int amount, boolean absolute) {
-    if (amount > limit-position) {
+    if (position < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferUnderflowException();
-- 
2.43.0


From 6fc9a96a5f83f75bd37a00749e81546214c33f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 089/211] fix: Buffer.limit and position check their arguments

---
 classpath/java/nio/ArrayByteBuffer.java      | 2 +-
 classpath/java/nio/ArrayCharBuffer.java      | 2 +-
 classpath/java/nio/Buffer.java               | 9 +++++++++
 classpath/java/nio/DirectByteBuffer.java     | 2 +-
 classpath/java/nio/FixedArrayByteBuffer.java | 2 +-
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/classpath/java/nio/ArrayByteBuffer.java b/classpath/java/nio/ArrayByteBuffer.java
index 8609725..b6135e8 100644
--- a/classpath/java/nio/ArrayByteBuffer.java
+++ b/classpath/java/nio/ArrayByteBuffer.java
@@ -26,8 +26,8 @@ class ArrayByteBuffer extends ByteBuffer {
 
   public ByteBuffer asReadOnlyBuffer() {
     ByteBuffer b = new ArrayByteBuffer(array, arrayOffset, capacity, true);
-    b.position(position());
     b.limit(limit());
+    b.position(position());
     return b;
   }
 
diff --git a/classpath/java/nio/ArrayCharBuffer.java b/classpath/java/nio/ArrayCharBuffer.java
index 83dca73..e533b20 100644
--- a/classpath/java/nio/ArrayCharBuffer.java
+++ b/classpath/java/nio/ArrayCharBuffer.java
@@ -26,8 +26,8 @@ class ArrayCharBuffer extends CharBuffer {
 
   public CharBuffer asReadOnlyBuffer() {
     CharBuffer b = new ArrayCharBuffer(array, arrayOffset, capacity, true);
-    b.position(position());
     b.limit(limit());
+    b.position(position());
     return b;
   }
 
diff --git a/classpath/java/nio/Buffer.java b/classpath/java/nio/Buffer.java
index f03e178..1fc0c1f 100644
--- a/classpath/java/nio/Buffer.java
+++ b/classpath/java/nio/Buffer.java
@@ -33,11 +33,20 @@ public abstract class Buffer {
   }
 
   public final Buffer limit(int newLimit) {
+    if (newLimit < 0 || newLimit > capacity) {
+      throw new IllegalArgumentException();
+    }
     limit = newLimit;
+    if (position > newLimit) {
+      position = newLimit;
+    }
     return this;
   }
 
   public final Buffer position(int newPosition) {
+    if (newPosition < 0 || newPosition > limit) {
+      throw new IllegalArgumentException();
+    }
     position = newPosition;
     return this;
   }
diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index 0074a16..c9e94fc 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -33,8 +33,8 @@ class DirectByteBuffer extends ByteBuffer {
 
   public ByteBuffer asReadOnlyBuffer() {
     ByteBuffer b = new DirectByteBuffer(address, capacity, true);
-    b.position(position());
     b.limit(limit());
+    b.position(position());
     return b;
   }
 
diff --git a/classpath/java/nio/FixedArrayByteBuffer.java b/classpath/java/nio/FixedArrayByteBuffer.java
index 697876b..c5d6e9d 100644
--- a/classpath/java/nio/FixedArrayByteBuffer.java
+++ b/classpath/java/nio/FixedArrayByteBuffer.java
@@ -37,8 +37,8 @@ class FixedArrayByteBuffer extends DirectByteBuffer {
   public ByteBuffer asReadOnlyBuffer() {
     ByteBuffer b = new FixedArrayByteBuffer
       (address, array, arrayOffset, capacity, true);
-    b.position(position());
     b.limit(limit());
+    b.position(position());
     return b;
   }
 
-- 
2.43.0


From 1890f8e07876f455f00017edf183262016a39381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 090/211] fix: nio buffers: compact on a read-only buffer fails
 before moving the position; relative CharBuffer.put overflows properly

---
 classpath/java/nio/ByteBuffer.java | 2 ++
 classpath/java/nio/CharBuffer.java | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index c583d22..9622b54 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -60,6 +60,8 @@ public abstract class ByteBuffer
   }
 
   public ByteBuffer compact() {
+    checkPut(position, 0, false);
+
     int remaining = remaining();
 
     if (position != 0) {
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 9f0caa4..60940e3 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -55,6 +55,8 @@ public abstract class CharBuffer
   }
 
   public CharBuffer compact() {
+    checkPut(position, 0, false);
+
     int remaining = remaining();
 
     if (position != 0) {
@@ -115,8 +117,8 @@ public abstract class CharBuffer
   }
 
   public CharBuffer put(char val) {
-    put(position, val);
-    ++ position;
+    checkPut(position, 1, false);
+    doPut(position++, val);
     return this;
   }
 
-- 
2.43.0


From 68efb5875baf3860f1cdd934f52eefdbdc2aa584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 091/211] fix: CharBuffer.isReadOnly, and slices of read-only
 character buffers stay read-only

---
 classpath/java/nio/CharBuffer.java | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 60940e3..62802e4 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -14,10 +14,8 @@ public abstract class CharBuffer
   extends Buffer
   implements Comparable<CharBuffer>
 {
-  private final boolean readOnly;
-
   protected CharBuffer(boolean readOnly) {
-    this.readOnly = readOnly;
+    this.readonly = readOnly;
   }
 
   public static CharBuffer allocate(int capacity) {
@@ -141,7 +139,7 @@ public abstract class CharBuffer
   }
 
   protected void checkPut(int position, int amount, boolean absolute) {
-    if (readOnly) {
+    if (readonly) {
       throw new ReadOnlyBufferException();
     }
 
-- 
2.43.0


From a1381a998463b48b61a14a648a3d9c0adec2f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 092/211] fix: Class.getField finds inherited fields of
 superclasses and interfaces, and only public ones

---
 classpath/java/lang/Class.java | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index 6b3729b..f7ca4f3 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -201,14 +201,29 @@ public final class Class <T>
     }
   }
 
-  public Field getField(String name) throws NoSuchFieldException {
-    for (VMClass c = vmClass; c != null; c = c.super_) {
-      int index = Classes.findField(c, name);
-      if (index >= 0) {
-        return new Field(vmClass.fieldTable[index]);
+  private Field findPublicField(String name) {
+    int index = Classes.findField(vmClass, name);
+    if (index >= 0
+        && (vmClass.fieldTable[index].flags & Modifier.PUBLIC) != 0)
+    {
+      return new Field(vmClass.fieldTable[index]);
+    }
+    for (Class c: getInterfaces()) {
+      Field f = c.findPublicField(name);
+      if (f != null) {
+        return f;
       }
     }
-    throw new NoSuchFieldException(name);
+    Class super_ = getSuperclass();
+    return super_ == null ? null : super_.findPublicField(name);
+  }
+
+  public Field getField(String name) throws NoSuchFieldException {
+    Field f = findPublicField(name);
+    if (f == null) {
+      throw new NoSuchFieldException(name);
+    }
+    return f;
   }
 
   public Method getDeclaredMethod(String name, Class ... parameterTypes)
-- 
2.43.0


From e850fe471a0547e53e5e6308cea42f4b01ec746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 093/211] fix: parameter types that are object arrays have the
 right name; looking at parameter types does not initialize them

---
 classpath/avian/Classes.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index b827ab2..103edf3 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -350,16 +350,16 @@ public class Classes {
           int start = i + 1;
           i = next(';', spec, start);
           String name = spec.substring(start, i).replace('/', '.');
-          types[index++] = Class.forName(name, true, vmMethod.class_.loader);
+          types[index++] = Class.forName(name, false, vmMethod.class_.loader);
         } else if (c == '[') {
           int start = i;
           while (spec.charAt(i) == '[') ++i;
 
           if (spec.charAt(i) == 'L') {
             i = next(';', spec, i + 1);
-            String name = spec.substring(start, i).replace('/', '.');
+            String name = spec.substring(start, i + 1).replace('/', '.');
             types[index++] = Class.forName
-              (name, true, vmMethod.class_.loader);
+              (name, false, vmMethod.class_.loader);
           } else {
             String name = spec.substring(start, i + 1);
             types[index++] = forCanonicalName(vmMethod.class_.loader, name);
-- 
2.43.0


From 3385e99142437c14edd527cddf390be2cf8f90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 094/211] fix: interfaces and primitive types have no
 superclass; toString of primitive classes

---
 classpath/java/lang/Class.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index f7ca4f3..9abf97b 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -59,6 +59,7 @@ public final class Class <T>
     String res;
     if (isInterface()) res = "interface ";
     else if (isAnnotation()) res = "annotation ";
+    else if (isPrimitive()) res = "";
     else res = "class ";
     return res + getName();
   }
@@ -525,7 +526,7 @@ public final class Class <T>
   }
 
   public Class getSuperclass() {
-    return (vmClass.super_ == null ? null : SystemClassLoader.getClass(vmClass.super_));
+    return (vmClass.super_ == null || isInterface() || isPrimitive() ? null : SystemClassLoader.getClass(vmClass.super_));
   }
   
   private enum ClassType { GLOBAL, MEMBER, LOCAL, ANONYMOUS }
-- 
2.43.0


From 0da5bfef4f13ca2ac020fabc04d8f16f83340e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 095/211] fix: Class.cast checks the type

---
 classpath/java/lang/Class.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index 9abf97b..d04c339 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -631,6 +631,10 @@ public final class Class <T>
   }
 
   public T cast(Object o) {
+    if (o != null && ! isInstance(o)) {
+      throw new ClassCastException
+        (o.getClass().getName() + " cannot be cast to " + getName());
+    }
     return (T) o;
   }
 
-- 
2.43.0


From 5cf36b8fd6043c335b71bcfe969611cffb7bd325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 096/211] fix: Class.newInstance throws the exception of the
 constructor, InstantiationException if there is none

---
 classpath/java/lang/Class.java | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index d04c339..061f35b 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -144,12 +144,17 @@ public final class Class <T>
     try {
       return (T) getConstructor().newInstance();
     } catch (NoSuchMethodException e) {
-      throw new RuntimeException(e);
+      throw new InstantiationException(getName());
     } catch (InvocationTargetException e) {
-      throw new RuntimeException(e);
+      Class.<RuntimeException>rethrow(e.getTargetException());
+      return null; // not reached
     }
   }
 
+  private static <E extends Throwable> void rethrow(Throwable e) throws E {
+    throw (E) e;
+  }
+
   public static Class forName(String name) throws ClassNotFoundException {
     return forName(name, true, Method.getCaller().class_.loader);
   }
-- 
2.43.0


From a56ccaa93d42263e1f3fa0c46f814a77cc3031fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 097/211] fix: Constructor.newInstance of an abstract class
 throws InstantiationException

---
 classpath/java/lang/reflect/Constructor.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/lang/reflect/Constructor.java b/classpath/java/lang/reflect/Constructor.java
index ec7d306..928d1d9 100644
--- a/classpath/java/lang/reflect/Constructor.java
+++ b/classpath/java/lang/reflect/Constructor.java
@@ -70,6 +70,10 @@ public class Constructor<T> extends AccessibleObject implements Member {
     throws InvocationTargetException, InstantiationException,
     IllegalAccessException
   {
+    if ((method.getDeclaringClass().getModifiers() & Modifier.ABSTRACT) != 0) {
+      throw new InstantiationException(getName());
+    }
+
     T v = (T) make(method.getDeclaringClass().vmClass);
     method.invoke(v, arguments);
     return v;
-- 
2.43.0


From 50634f141131ab4faa588500fc200a98c789a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 098/211] fix: Method.invoke checks its arguments and widens
 them; byte and short arguments keep their sign

---
 classpath/avian/Classes.java            | 98 +++++++++++++++++++++++++
 classpath/java/lang/reflect/Method.java | 11 ++-
 src/compile.cpp                         | 10 +++
 src/interpret.cpp                       | 12 +++
 4 files changed, 127 insertions(+), 4 deletions(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index 103edf3..9eaa3a2 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -332,6 +332,104 @@ public class Classes {
     throw new RuntimeException();
   }
 
+  /**
+   * Returns v, converted by widening as necessary to the primitive
+   * type that c stands for, or throws IllegalArgumentException if it is
+   * not a value of that type.
+   */
+  public static Object widen(char c, Object v) {
+    switch (c) {
+    case 'Z':
+      if (v instanceof Boolean) return v;
+      break;
+
+    case 'C':
+      if (v instanceof Character) return v;
+      break;
+
+    case 'B':
+      if (v instanceof Byte) return v;
+      break;
+
+    case 'S':
+      if (v instanceof Short) return v;
+      if (v instanceof Byte) return Short.valueOf(((Byte) v).shortValue());
+      break;
+
+    case 'I':
+      if (v instanceof Integer) return v;
+      if (v instanceof Character) return Integer.valueOf((Character) v);
+      if (v instanceof Byte || v instanceof Short) {
+        return Integer.valueOf(((Number) v).intValue());
+      }
+      break;
+
+    case 'J':
+      if (v instanceof Long) return v;
+      if (v instanceof Character) return Long.valueOf((Character) v);
+      if (v instanceof Byte || v instanceof Short || v instanceof Integer) {
+        return Long.valueOf(((Number) v).longValue());
+      }
+      break;
+
+    case 'F':
+      if (v instanceof Float) return v;
+      if (v instanceof Character) return Float.valueOf((Character) v);
+      if (v instanceof Byte || v instanceof Short || v instanceof Integer
+          || v instanceof Long)
+      {
+        return Float.valueOf(((Number) v).floatValue());
+      }
+      break;
+
+    case 'D':
+      if (v instanceof Double) return v;
+      if (v instanceof Character) return Double.valueOf((Character) v);
+      if (v instanceof Byte || v instanceof Short || v instanceof Integer
+          || v instanceof Long || v instanceof Float)
+      {
+        return Double.valueOf(((Number) v).doubleValue());
+      }
+      break;
+    }
+
+    throw new IllegalArgumentException
+      ("type mismatch: " + (v == null ? "null" : v.getClass().getName()));
+  }
+
+  /**
+   * Checks the arguments of a reflective call against the parameter
+   * types, and returns them with primitive values widened.
+   */
+  public static Object[] checkArguments(VMMethod vmMethod, Object[] arguments)
+  {
+    Object[] result = new Object[arguments.length];
+    Class[] types = getParameterTypes(vmMethod);
+    for (int i = 0; i < types.length; ++i) {
+      Object v = arguments[i];
+      if (types[i].isPrimitive()) {
+        v = widen(primitiveCode(types[i]), v);
+      } else if (v != null && ! types[i].isInstance(v)) {
+        throw new IllegalArgumentException
+          ("type mismatch: " + v.getClass().getName());
+      }
+      result[i] = v;
+    }
+    return result;
+  }
+
+  public static char primitiveCode(Class c) {
+    if (c == int.class) return 'I';
+    else if (c == long.class) return 'J';
+    else if (c == boolean.class) return 'Z';
+    else if (c == byte.class) return 'B';
+    else if (c == char.class) return 'C';
+    else if (c == short.class) return 'S';
+    else if (c == float.class) return 'F';
+    else if (c == double.class) return 'D';
+    else return 'V';
+  }
+
   public static Class[] getParameterTypes(VMMethod vmMethod) {
     int count = vmMethod.parameterCount;
 
diff --git a/classpath/java/lang/reflect/Method.java b/classpath/java/lang/reflect/Method.java
index 705fc8e..520e980 100644
--- a/classpath/java/lang/reflect/Method.java
+++ b/classpath/java/lang/reflect/Method.java
@@ -78,19 +78,22 @@ public class Method<T> extends AccessibleObject implements Member {
       }
 
       if (arguments == null) {
-        if (vmMethod.parameterCount > 0) {
-          throw new NullPointerException();
-        }
         arguments = new Object[0];
       }
 
       if (arguments.length == vmMethod.parameterCount) {
+        if (arguments.length > 0) {
+          arguments = Classes.checkArguments(vmMethod, arguments);
+        }
+
         Classes.initialize(vmMethod.class_);
 
         return invoke(vmMethod, instance, arguments);        
       } else {
-        throw new ArrayIndexOutOfBoundsException();
+        throw new IllegalArgumentException("wrong number of arguments");
       }
+    } else if (instance == null) {
+      throw new NullPointerException();
     } else {
 //       System.out.println
 //         (getDeclaringClass() + "." + getName() + " flags: " + vmMethod.flags + " vm flags: " + vmMethod.vmFlags + " return code: " + vmMethod.returnCode);
diff --git a/src/compile.cpp b/src/compile.cpp
index 3559d64..2275d9c 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -8484,6 +8484,16 @@ class ArgumentList {
             fieldAtOffset<int64_t>(objectArrayBody(t, arguments, index++), 8));
         break;
 
+      case 'B':
+        addInt(fieldAtOffset<int8_t>(objectArrayBody(t, arguments, index++),
+                                     BytesPerWord));
+        break;
+
+      case 'S':
+        addInt(fieldAtOffset<int16_t>(objectArrayBody(t, arguments, index++),
+                                      BytesPerWord));
+        break;
+
       default:
         addInt(fieldAtOffset<int32_t>(objectArrayBody(t, arguments, index++),
                                       BytesPerWord));
diff --git a/src/interpret.cpp b/src/interpret.cpp
index e451df0..26eb676 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3146,6 +3146,18 @@ void pushArguments(Thread* t, object this_, const char* spec, object a)
       pushLong(t, fieldAtOffset<int64_t>(objectArrayBody(t, a, index++), 8));
       break;
 
+    case 'B':
+      pushInt(
+          t,
+          fieldAtOffset<int8_t>(objectArrayBody(t, a, index++), BytesPerWord));
+      break;
+
+    case 'S':
+      pushInt(
+          t,
+          fieldAtOffset<int16_t>(objectArrayBody(t, a, index++), BytesPerWord));
+      break;
+
     default:
       pushInt(
           t,
-- 
2.43.0


From 2c9f4f627cfc6d501469c01346cc146ec4e5d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 099/211] fix: Array.set widens primitive values and rejects
 others with IllegalArgumentException

---
 classpath/java/lang/reflect/Array.java | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/classpath/java/lang/reflect/Array.java b/classpath/java/lang/reflect/Array.java
index 0984601..b23944d 100644
--- a/classpath/java/lang/reflect/Array.java
+++ b/classpath/java/lang/reflect/Array.java
@@ -10,6 +10,8 @@
 
 package java.lang.reflect;
 
+import avian.Classes;
+
 public final class Array {
   private Array() { }
 
@@ -53,28 +55,28 @@ public final class Array {
 
     switch (className.charAt(1)) {
     case 'B':
-      ((byte[]) array)[index] = (Byte) value;
+      ((byte[]) array)[index] = (Byte) Classes.widen('B', value);
       break;
     case 'C':
-      ((char[]) array)[index] = (Character) value;
+      ((char[]) array)[index] = (Character) Classes.widen('C', value);
       break;
     case 'D':
-      ((double[]) array)[index] = (Double) value;
+      ((double[]) array)[index] = (Double) Classes.widen('D', value);
       break;
     case 'F':
-      ((float[]) array)[index] = (Float) value;
+      ((float[]) array)[index] = (Float) Classes.widen('F', value);
       break;
     case 'I':
-      ((int[]) array)[index] = (Integer) value;
+      ((int[]) array)[index] = (Integer) Classes.widen('I', value);
       break;
     case 'J':
-      ((long[]) array)[index] = (Long) value;
+      ((long[]) array)[index] = (Long) Classes.widen('J', value);
       break;
     case 'S':
-      ((short[]) array)[index] = (Short) value;
+      ((short[]) array)[index] = (Short) Classes.widen('S', value);
       break;
     case 'Z':
-      ((boolean[]) array)[index] = (Boolean) value;
+      ((boolean[]) array)[index] = (Boolean) Classes.widen('Z', value);
       break;
     case 'L':
     case '[':
-- 
2.43.0


From 5491d5542282b52d097174a2ca6f3169a1a17293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 100/211] fix: Field.get and set widen primitive values, check
 their type and report a null instance

---
 classpath/java/lang/reflect/Field.java | 96 +++++++++-----------------
 1 file changed, 34 insertions(+), 62 deletions(-)

diff --git a/classpath/java/lang/reflect/Field.java b/classpath/java/lang/reflect/Field.java
index 91d3b68..ed85d6d 100644
--- a/classpath/java/lang/reflect/Field.java
+++ b/classpath/java/lang/reflect/Field.java
@@ -84,6 +84,8 @@ public class Field<T> extends AccessibleObject implements Member {
       target = vmField.class_.staticTable;
     } else if (Class.isInstance(vmField.class_, instance)) {
       target = instance;
+    } else if (instance == null) {
+      throw new NullPointerException();
     } else {
       throw new IllegalArgumentException();
     }
@@ -134,65 +136,68 @@ public class Field<T> extends AccessibleObject implements Member {
   }
 
   public boolean getBoolean(Object instance) throws IllegalAccessException {
-    return ((Boolean) get(instance)).booleanValue();
+    return ((Boolean) Classes.widen('Z', get(instance))).booleanValue();
   }
 
   public byte getByte(Object instance) throws IllegalAccessException {
-    return ((Byte) get(instance)).byteValue();
+    return ((Byte) Classes.widen('B', get(instance))).byteValue();
   }
 
   public short getShort(Object instance) throws IllegalAccessException {
-    return ((Short) get(instance)).shortValue();
+    return ((Short) Classes.widen('S', get(instance))).shortValue();
   }
 
   public char getChar(Object instance) throws IllegalAccessException {
-    return ((Character) get(instance)).charValue();
+    return ((Character) Classes.widen('C', get(instance))).charValue();
   }
 
   public int getInt(Object instance) throws IllegalAccessException {
-    return ((Integer) get(instance)).intValue();
+    return ((Integer) Classes.widen('I', get(instance))).intValue();
   }
 
   public float getFloat(Object instance) throws IllegalAccessException {
-    return ((Float) get(instance)).floatValue();
+    return ((Float) Classes.widen('F', get(instance))).floatValue();
   }
 
   public long getLong(Object instance) throws IllegalAccessException {
-    return ((Long) get(instance)).longValue();
+    return ((Long) Classes.widen('J', get(instance))).longValue();
   }
 
   public double getDouble(Object instance) throws IllegalAccessException {
-    return ((Double) get(instance)).doubleValue();
+    return ((Double) Classes.widen('D', get(instance))).doubleValue();
   }
 
-  private boolean matchType(Object value) {
+  private Object convert(Object value) {
     switch (vmField.code) {
     case ByteField:
-      return value instanceof Byte;
+      return Classes.widen('B', value);
 
     case BooleanField:
-      return value instanceof Boolean;
+      return Classes.widen('Z', value);
 
     case CharField:
-      return value instanceof Character;
+      return Classes.widen('C', value);
 
     case ShortField:
-      return value instanceof Short;
+      return Classes.widen('S', value);
 
     case IntField:
-      return value instanceof Integer;
+      return Classes.widen('I', value);
 
     case LongField:
-      return value instanceof Long;
+      return Classes.widen('J', value);
 
     case FloatField:
-      return value instanceof Float;
+      return Classes.widen('F', value);
 
     case DoubleField:
-      return value instanceof Double;
+      return Classes.widen('D', value);
 
     case ObjectField:
-      return value == null || getType().isInstance(value);
+      if (value != null && ! getType().isInstance(value)) {
+        throw new IllegalArgumentException();
+      }
+      return value;
 
     default:
       throw new Error();
@@ -207,13 +212,13 @@ public class Field<T> extends AccessibleObject implements Member {
       target = vmField.class_.staticTable;
     } else if (Class.isInstance(vmField.class_, instance)) {
       target = instance;
+    } else if (instance == null) {
+      throw new NullPointerException();
     } else {
       throw new IllegalArgumentException();
     }
 
-    if (! matchType(value)) {
-      throw new IllegalArgumentException();
-    }
+    value = convert(value);
 
     Classes.initialize(vmField.class_);
 
@@ -262,85 +267,52 @@ public class Field<T> extends AccessibleObject implements Member {
     }
   }
 
-  private void set(Object instance, long value)
-    throws IllegalAccessException
-  {
-    Object target;
-    if ((vmField.flags & Modifier.STATIC) != 0) {
-      target = vmField.class_.staticTable;
-    } else if (Class.isInstance(vmField.class_, instance)) {
-      target = instance;
-    } else {
-      throw new IllegalArgumentException();
-    }
-
-    Classes.initialize(vmField.class_);
-
-    switch (vmField.code) {
-    case ByteField:
-    case BooleanField:
-    case CharField:
-    case ShortField:
-    case IntField:
-    case LongField:
-    case FloatField:
-    case DoubleField:
-      setPrimitive(target, vmField.code, vmField.offset, value);
-      break;
-
-    default:
-      throw new IllegalArgumentException
-        ("needed " + getType() + ", got primitive type when setting "
-         + Class.getName(vmField.class_) + "." + getName());
-    }
-  }
-
   public void setByte(Object instance, byte value)
     throws IllegalAccessException
   {
-    set(instance, value & 0xff);
+    set(instance, Byte.valueOf(value));
   }
 
   public void setBoolean(Object instance, boolean value)
     throws IllegalAccessException
   {
-    set(instance, value ? 1 : 0);
+    set(instance, Boolean.valueOf(value));
   }
 
   public void setChar(Object instance, char value)
     throws IllegalAccessException
   {
-    set(instance, value & 0xffff);
+    set(instance, Character.valueOf(value));
   }
 
   public void setShort(Object instance, short value)
     throws IllegalAccessException
   {
-    set(instance, value & 0xffff);
+    set(instance, Short.valueOf(value));
   }
 
   public void setInt(Object instance, int value)
     throws IllegalAccessException
   {
-    set(instance, value & 0xffffffffl);
+    set(instance, Integer.valueOf(value));
   }
 
   public void setLong(Object instance, long value)
     throws IllegalAccessException
   {
-    set(instance, value);
+    set(instance, Long.valueOf(value));
   }
 
   public void setFloat(Object instance, float value)
     throws IllegalAccessException
   {
-    set(instance, Float.floatToIntBits(value));
+    set(instance, Float.valueOf(value));
   }
 
   public void setDouble(Object instance, double value)
     throws IllegalAccessException
   {
-    set(instance, Double.doubleToLongBits(value));
+    set(instance, Double.valueOf(value));
   }
 
   private Annotation getAnnotation(Object[] a) {
-- 
2.43.0


From 66a44320c74a340498f3479b96eb3f4bc9a5b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 101/211] fix: proxies pass arguments that follow a long or
 double

---
 classpath/java/lang/reflect/Proxy.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/reflect/Proxy.java b/classpath/java/lang/reflect/Proxy.java
index 60bbedc..68a290e 100644
--- a/classpath/java/lang/reflect/Proxy.java
+++ b/classpath/java/lang/reflect/Proxy.java
@@ -115,13 +115,14 @@ public class Proxy {
     write2(out, ConstantPool.addClass(pool, "java/lang/Object") + 1);
 
     int ai = 0;
+    int pi = 0;
     int si;
     for (si = 1; spec[si] != ')'; ++si) {
       write1(out, dup);
 
       write1(out, ldc_w);
-      write2(out, ConstantPool.addInteger(pool, ai) + 1);
-    
+      write2(out, ConstantPool.addInteger(pool, pi++) + 1);
+
       switch (spec[si]) {
       case 'L':
         ++ si;
-- 
2.43.0


From 51c1f3b3aa9e34e3b8000be057998b3e09e436c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 102/211] fix: proxies check the type of what the handler
 returns

---
 classpath/avian/Assembler.java         |  1 +
 classpath/java/lang/reflect/Proxy.java | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/classpath/avian/Assembler.java b/classpath/avian/Assembler.java
index 64a06fd..d5e505a 100644
--- a/classpath/avian/Assembler.java
+++ b/classpath/avian/Assembler.java
@@ -32,6 +32,7 @@ public class Assembler {
   public static final int astore_0 = 0x4b;
   public static final int anewarray = 0xbd;
   public static final int areturn = 0xb0;
+  public static final int checkcast = 0xc0;
   public static final int dload = 0x18;
   public static final int dreturn = 0xaf;
   public static final int dup = 0x59;
diff --git a/classpath/java/lang/reflect/Proxy.java b/classpath/java/lang/reflect/Proxy.java
index 68a290e..e670855 100644
--- a/classpath/java/lang/reflect/Proxy.java
+++ b/classpath/java/lang/reflect/Proxy.java
@@ -79,6 +79,15 @@ public class Proxy {
     return ((Proxy) proxy).h;
   }
 
+  private static void writeCast(OutputStream out,
+                                List<PoolEntry> pool,
+                                String name)
+    throws IOException
+  {
+    write1(out, checkcast);
+    write2(out, ConstantPool.addClass(pool, name) + 1);
+  }
+
   private static byte[] makeInvokeCode(List<PoolEntry> pool,
                                        String className,
                                        byte[] spec,
@@ -251,11 +260,19 @@ public class Proxy {
 
     switch (spec[si + 1]) {
     case 'L':
+      writeCast(out, pool, Classes.makeString
+                (spec, si + 2, spec.length - si - 4));
+      write1(out, areturn);
+      break;
+
     case '[':
+      writeCast(out, pool, Classes.makeString
+                (spec, si + 1, spec.length - si - 2));
       write1(out, areturn);
       break;
 
     case 'Z':
+      writeCast(out, pool, "java/lang/Boolean");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Boolean", "booleanValue", "()Z") + 1);
@@ -263,6 +280,7 @@ public class Proxy {
       break;
 
     case 'B':
+      writeCast(out, pool, "java/lang/Byte");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Byte", "byteValue", "()B") + 1);
@@ -270,6 +288,7 @@ public class Proxy {
       break;
 
     case 'C':
+      writeCast(out, pool, "java/lang/Character");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Character", "charValue", "()C") + 1);
@@ -277,6 +296,7 @@ public class Proxy {
       break;
 
     case 'S':
+      writeCast(out, pool, "java/lang/Short");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Short", "shortValue", "()S") + 1);
@@ -284,6 +304,7 @@ public class Proxy {
       break;
 
     case 'I':
+      writeCast(out, pool, "java/lang/Integer");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Integer", "intValue", "()I") + 1);
@@ -291,6 +312,7 @@ public class Proxy {
       break;
 
     case 'F':
+      writeCast(out, pool, "java/lang/Float");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Float", "floatValue", "()F") + 1);
@@ -298,6 +320,7 @@ public class Proxy {
       break;
 
     case 'J':
+      writeCast(out, pool, "java/lang/Long");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Long", "longValue", "()J") + 1);
@@ -305,6 +328,7 @@ public class Proxy {
       break;
 
     case 'D':
+      writeCast(out, pool, "java/lang/Double");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Double", "doubleValue", "()D") + 1);
-- 
2.43.0


From 0bb18ca2d0be1ad4c9875e8f7f15c577c1aa6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 103/211] fix: proxies dispatch hashCode, equals and toString
 to the handler

---
 classpath/java/lang/reflect/Proxy.java | 35 ++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/classpath/java/lang/reflect/Proxy.java b/classpath/java/lang/reflect/Proxy.java
index e670855..3cfca87 100644
--- a/classpath/java/lang/reflect/Proxy.java
+++ b/classpath/java/lang/reflect/Proxy.java
@@ -380,6 +380,22 @@ public class Proxy {
     return out.toByteArray();
   }
 
+  private static void addMethod(List<PoolEntry> pool,
+                                String name,
+                                avian.VMMethod m,
+                                List<MethodData> methodTable,
+                                List<Method> refs)
+    throws IOException
+  {
+    methodTable.add(new MethodData
+      (Modifier.PUBLIC,
+       ConstantPool.addUtf8(pool, Classes.toString(m.name)),
+       ConstantPool.addUtf8(pool, Classes.toString(m.spec)),
+       makeInvokeCode(pool, name, m.spec, m.parameterCount,
+                      m.parameterFootprint, methodTable.size())));
+    refs.add(Classes.makeMethod(m));
+  }
+
   private static Class makeClass(ClassLoader loader,
                                  Class[] interfaces,
                                  String name)
@@ -396,6 +412,16 @@ public class Proxy {
     Set<String> specs = new HashSet<String>();
     List<MethodData> methodTable = new ArrayList<MethodData>();
     List<Method> refs = new ArrayList<Method>();
+    for (avian.VMMethod m: SystemClassLoader.vmClass(Object.class).methodTable) {
+      String spec = Classes.toString(m.name) + Classes.toString(m.spec);
+      if (spec.equals("hashCode()I")
+          || spec.equals("equals(Ljava/lang/Object;)Z")
+          || spec.equals("toString()Ljava/lang/String;"))
+      {
+        specs.add(spec);
+        addMethod(pool, name, m, methodTable, refs);
+      }
+    }
     for (Class c: interfaces) {
       avian.VMMethod[] ivtable = SystemClassLoader.vmClass(c).virtualTable;
       if (ivtable != null) {
@@ -404,13 +430,8 @@ public class Proxy {
           if (specs.contains(spec)) {
             continue;
           }
-          methodTable.add(new MethodData
-            (Modifier.PUBLIC,
-             ConstantPool.addUtf8(pool, Classes.toString(m.name)),
-             ConstantPool.addUtf8(pool, Classes.toString(m.spec)),
-             makeInvokeCode(pool, name, m.spec, m.parameterCount,
-                            m.parameterFootprint, methodTable.size())));
-          refs.add(Classes.makeMethod(m));
+          specs.add(spec);
+          addMethod(pool, name, m, methodTable, refs);
         }
       }
     }
-- 
2.43.0


From 73b850f89fcc3449b0992f9a51f2993e20473fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 104/211] fix: annotations give their annotationType, and
 answer the methods of Object

---
 classpath/avian/AnnotationInvocationHandler.java | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/classpath/avian/AnnotationInvocationHandler.java b/classpath/avian/AnnotationInvocationHandler.java
index a15e716..a9488ec 100644
--- a/classpath/avian/AnnotationInvocationHandler.java
+++ b/classpath/avian/AnnotationInvocationHandler.java
@@ -22,6 +22,17 @@ public class AnnotationInvocationHandler implements InvocationHandler {
     
   public Object invoke(Object proxy, Method method, Object[] arguments) {
     String name = method.getName();
+    if (method.getDeclaringClass() == Object.class) {
+      if (name.equals("equals")) {
+        return proxy == arguments[0];
+      } else if (name.equals("hashCode")) {
+        return System.identityHashCode(proxy);
+      } else {
+        return "@" + ((Class) data[1]).getName();
+      }
+    } else if (name.equals("annotationType") && arguments.length == 0) {
+      return data[1];
+    }
     for (int i = 2; i < data.length; i += 2) {
       if (name.equals(data[i])) {
         return data[i + 1];
-- 
2.43.0


From 9b0103e7a29ee8bbbfd519d9f3f9da15a3ec39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 105/211] fix: ClassLoader.findLoadedClass finds the classes a
 loader defined, so that they are not defined again

---
 classpath/avian/SystemClassLoader.java | 5 +++--
 classpath/java/lang/ClassLoader.java   | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/classpath/avian/SystemClassLoader.java b/classpath/avian/SystemClassLoader.java
index 71c3749..26c24eb 100644
--- a/classpath/avian/SystemClassLoader.java
+++ b/classpath/avian/SystemClassLoader.java
@@ -33,10 +33,11 @@ public class SystemClassLoader extends ClassLoader {
 
   public static native VMClass vmClass(Class jClass);
 
-  private native VMClass findLoadedVMClass(String name);
+  public static native VMClass findLoadedVMClass(ClassLoader loader,
+                                                 String name);
 
   protected Class reallyFindLoadedClass(String name){
-    VMClass c = findLoadedVMClass(name);
+    VMClass c = findLoadedVMClass(this, name);
     return c == null ? null : getClass(c);
   }
 
diff --git a/classpath/java/lang/ClassLoader.java b/classpath/java/lang/ClassLoader.java
index 8cc4329..045ccb1 100644
--- a/classpath/java/lang/ClassLoader.java
+++ b/classpath/java/lang/ClassLoader.java
@@ -111,6 +111,10 @@ public abstract class ClassLoader {
       throw new IndexOutOfBoundsException();
     }
 
+    if (name != null && findLoadedClass(name) != null) {
+      throw new LinkageError("duplicate class definition: " + name);
+    }
+
     return avian.SystemClassLoader.getClass
       (avian.Classes.defineVMClass(this, b, offset, length));
   }
@@ -126,7 +130,8 @@ public abstract class ClassLoader {
   }
 
   protected Class reallyFindLoadedClass(String name) {
-    return null;
+    avian.VMClass c = avian.SystemClassLoader.findLoadedVMClass(this, name);
+    return c == null ? null : avian.SystemClassLoader.getClass(c);
   }
 
   protected final Class findLoadedClass(String name) {
-- 
2.43.0


From 56eee8a15a763b209924b93a9c4babcff7f8a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 106/211] fix: Class.forName finds array classes through any
 class loader

---
 classpath/avian/Classes.java | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index 9eaa3a2..76cd890 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -293,7 +293,13 @@ public class Classes {
     if (loader == null) {
       loader = Class.class.getClassLoader();
     }
-    Class c = loader.loadClass(name.replace('/', '.'));
+    Class c;
+    if (name.startsWith("[")) {
+      c = SystemClassLoader.getClass
+        (resolveVMClass(loader, (name.replace('.', '/') + '\0').getBytes()));
+    } else {
+      c = loader.loadClass(name.replace('/', '.'));
+    }
     VMClass vmc = SystemClassLoader.vmClass(c);
     link(vmc, loader);
     if (initialize) {
-- 
2.43.0


From 8efb97d4f633a424ccceea52c6d69754003e3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 107/211] fix: Class.getMethod, getMethods and getFields look
 at public inherited members

---
 classpath/java/lang/Class.java | 92 ++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 20 deletions(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index 061f35b..03b5a71 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -11,6 +11,7 @@
 package java.lang;
 
 import avian.VMClass;
+import avian.VMField;
 import avian.ClassAddendum;
 import avian.AnnotationInvocationHandler;
 import avian.SystemClassLoader;
@@ -39,6 +40,9 @@ import java.util.ArrayList;
 import java.util.LinkedList;
 import java.util.Map;
 import java.util.HashMap;
+import java.util.LinkedHashMap;
+import java.util.LinkedHashSet;
+import java.util.Set;
 import java.security.ProtectionDomain;
 import java.security.Permissions;
 import java.security.AllPermission;
@@ -246,17 +250,38 @@ public final class Class <T>
     }
   }
 
+  private Method findPublicMethod(String name, Class[] parameterTypes) {
+    for (VMClass c = vmClass; c != null; c = c.super_) {
+      int index = Classes.findMethod(c, name, parameterTypes);
+      if (index >= 0
+          && (c.methodTable[index].flags & Modifier.PUBLIC) != 0)
+      {
+        return new Method(c.methodTable[index]);
+      }
+      if (isInterface()) {
+        break;
+      }
+    }
+    for (VMClass c = vmClass; c != null; c = c.super_) {
+      for (Class i: SystemClassLoader.getClass(c).getInterfaces()) {
+        Method m = i.findPublicMethod(name, parameterTypes);
+        if (m != null) {
+          return m;
+        }
+      }
+    }
+    return null;
+  }
+
   public Method getMethod(String name, Class ... parameterTypes)
     throws NoSuchMethodException
   {
     if (name.startsWith("<")) {
       throw new NoSuchMethodException(name);
     }
-    for (VMClass c = vmClass; c != null; c = c.super_) {
-      int index = Classes.findMethod(c, name, parameterTypes);
-      if (index >= 0) {
-        return new Method(c.methodTable[index]);
-      }
+    Method m = findPublicMethod(name, parameterTypes);
+    if (m != null) {
+      return m;
     }
     throw new NoSuchMethodException(name);
   }
@@ -353,31 +378,34 @@ public final class Class <T>
     }
   }
 
-  private int countPublicFields() {
-    int count = 0;
-    if (vmClass.fieldTable != null) {
-      for (int i = 0; i < vmClass.fieldTable.length; ++i) {
-        if (((vmClass.fieldTable[i].flags & Modifier.PUBLIC)) != 0) {
-          ++ count;
-        }
-      }
+  public Field[] getFields() {
+    LinkedHashSet<VMField> fields = new LinkedHashSet<VMField>();
+    addPublicFields(fields);
+    Field[] array = new Field[fields.size()];
+    int ai = 0;
+    for (VMField f: fields) {
+      array[ai++] = new Field(f);
     }
-    return count;
+    return array;
   }
 
-  public Field[] getFields() {
-    Field[] array = new Field[countPublicFields()];
+  private void addPublicFields(Set<VMField> fields) {
     if (vmClass.fieldTable != null) {
       Classes.link(vmClass);
 
-      int ai = 0;
       for (int i = 0; i < vmClass.fieldTable.length; ++i) {
         if (((vmClass.fieldTable[i].flags & Modifier.PUBLIC)) != 0) {
-          array[ai++] = new Field(vmClass.fieldTable[i]);
+          fields.add(vmClass.fieldTable[i]);
         }
       }
     }
-    return array;
+    for (Class c: getInterfaces()) {
+      c.addPublicFields(fields);
+    }
+    Class super_ = getSuperclass();
+    if (super_ != null) {
+      super_.addPublicFields(fields);
+    }
   }
 
   private static void getAllFields(VMClass vmClass, ArrayList<Field> fields) {
@@ -404,7 +432,31 @@ public final class Class <T>
   }
 
   public Method[] getMethods() {
-    return Classes.getMethods(vmClass, true);
+    LinkedHashMap<String, Method> methods
+      = new LinkedHashMap<String, Method>();
+    addPublicMethods(methods);
+    return methods.values().toArray(new Method[methods.size()]);
+  }
+
+  private void addPublicMethods(Map<String, Method> methods) {
+    for (Method m: Classes.getMethods(vmClass, true)) {
+      String key = m.getName() + Method.getSpec(m.vmMethod);
+      Method old = methods.get(key);
+      if (old == null
+          || (Modifier.isAbstract(old.getModifiers())
+              && ! Modifier.isAbstract(m.getModifiers())
+              && old.getDeclaringClass().isInterface()))
+      {
+        methods.put(key, m);
+      }
+    }
+    Class super_ = getSuperclass();
+    if (super_ != null) {
+      super_.addPublicMethods(methods);
+    }
+    for (Class c: getInterfaces()) {
+      c.addPublicMethods(methods);
+    }
   }
 
   public Class[] getInterfaces() {
-- 
2.43.0


From 600abff5cf63f55f38c5080c4769dc3f2cfcac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 108/211] fix: looking up a declared method does not find what
 an abstract class merely inherits from interfaces

---
 classpath/avian/Classes.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index 76cd890..444b748 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -557,7 +557,7 @@ public class Classes {
         parameterTypes = new Class[0];
       }
 
-      for (int i = 0; i < methodTable.length; ++i) {
+      for (int i = 0, j = declaredMethodCount(vmClass); i < j; ++i) {
         VMMethod m = methodTable[i];
         if (toString(m.name).equals(name)
             && match(parameterTypes, getParameterTypes(m)))
-- 
2.43.0


From 6fad0e893a814ab7aa086454d028656601a9f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 109/211] fix: Double and Float are Comparable

---
 classpath/java/lang/Double.java | 18 +++++++++++++++++-
 classpath/java/lang/Float.java  | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Double.java b/classpath/java/lang/Double.java
index a2603bb..407e1af 100644
--- a/classpath/java/lang/Double.java
+++ b/classpath/java/lang/Double.java
@@ -10,7 +10,7 @@
 
 package java.lang;
 
-public final class Double extends Number {
+public final class Double extends Number implements Comparable<Double> {
   public static final Class TYPE = avian.Classes.forCanonicalName("D");
 
   public static final double NEGATIVE_INFINITY = -1.0 / 0.0;
@@ -38,6 +38,22 @@ public final class Double extends Number {
     return new Double(s);
   }
 
+  public static int compare(double a, double b) {
+    if (a < b) {
+      return -1;
+    } else if (a > b) {
+      return 1;
+    } else {
+      long x = doubleToLongBits(a);
+      long y = doubleToLongBits(b);
+      return x < y ? -1 : (x == y ? 0 : 1);
+    }
+  }
+
+  public int compareTo(Double o) {
+    return compare(value, o.value);
+  }
+
   public boolean equals(Object o) {
     return o instanceof Double
       && doubleToLongBits(((Double) o).value) == doubleToLongBits(value);
diff --git a/classpath/java/lang/Float.java b/classpath/java/lang/Float.java
index 2190b89..783481a 100644
--- a/classpath/java/lang/Float.java
+++ b/classpath/java/lang/Float.java
@@ -10,7 +10,7 @@
 
 package java.lang;
 
-public final class Float extends Number {
+public final class Float extends Number implements Comparable<Float> {
   public static final Class TYPE = avian.Classes.forCanonicalName("F");
   private static final int EXP_BIT_MASK = 0x7F800000;
   private static final int SIGNIF_BIT_MASK = 0x007FFFFF;
@@ -40,6 +40,22 @@ public final class Float extends Number {
     return new Float(s);
   }
 
+  public static int compare(float a, float b) {
+    if (a < b) {
+      return -1;
+    } else if (a > b) {
+      return 1;
+    } else {
+      int x = floatToIntBits(a);
+      int y = floatToIntBits(b);
+      return x < y ? -1 : (x == y ? 0 : 1);
+    }
+  }
+
+  public int compareTo(Float o) {
+    return compare(value, o.value);
+  }
+
   public boolean equals(Object o) {
     return o instanceof Float
       && floatToIntBits(((Float) o).value) == floatToIntBits(value);
-- 
2.43.0


From e2b89ddb87975ce7be99c54f5c1288251de50537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 110/211] fix: Class.getDeclaredAnnotations of a class without
 attributes

---
 classpath/java/lang/Class.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index 03b5a71..12cfa9a 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -742,8 +742,8 @@ public final class Class <T>
   }
 
   public Annotation[] getDeclaredAnnotations() {
-    if (vmClass.addendum.annotationTable != null) {
-      Classes.link(vmClass);
+    if (vmClass.addendum != null && vmClass.addendum.annotationTable != null) {
+      Classes.link(vmClass, vmClass.loader);
 
       Object[] table = (Object[]) vmClass.addendum.annotationTable;
       Annotation[] array = new Annotation[table.length];
-- 
2.43.0


From 31bad8901b236369843e804486828a28ffbce203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 111/211] fix: annotation members that are arrays or name
 primitive and array classes; looking at types does not initialize them

---
 .../avian/AnnotationInvocationHandler.java    |  3 ++-
 classpath/avian/Classes.java                  | 25 ++++++++++++++++---
 classpath/java/lang/reflect/Method.java       |  4 ++-
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/classpath/avian/AnnotationInvocationHandler.java b/classpath/avian/AnnotationInvocationHandler.java
index a9488ec..db95288 100644
--- a/classpath/avian/AnnotationInvocationHandler.java
+++ b/classpath/avian/AnnotationInvocationHandler.java
@@ -35,7 +35,8 @@ public class AnnotationInvocationHandler implements InvocationHandler {
     }
     for (int i = 2; i < data.length; i += 2) {
       if (name.equals(data[i])) {
-        return data[i + 1];
+        return Classes.annotationValue
+          (data[i + 1], method.getReturnType());
       }
     }
     return method.getDefaultValue();
diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index 444b748..da31536 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -20,6 +20,7 @@ import java.security.AllPermission;
 import java.security.Permissions;
 import java.security.ProtectionDomain;
 import java.security.cert.Certificate;
+import java.lang.reflect.Array;
 import java.lang.reflect.Modifier;
 import java.lang.reflect.Method;
 import java.lang.reflect.Field;
@@ -121,8 +122,7 @@ public class Classes {
     case 'c':{
       byte[] name = (byte[]) Singleton.getObject(pool, read2(in) - 1);
 
-      return SystemClassLoader.getClass
-        (loadVMClass(loader, name, 1, name.length - 3));
+      return forCanonicalName(loader, makeString(name, 0, name.length - 1));
     }
 
     case '@':
@@ -140,6 +140,23 @@ public class Classes {
     }
   }
 
+  /**
+   * Returns v, which is the value of an annotation member that returns
+   * type, as an array of the proper type if it is an array.
+   */
+  public static Object annotationValue(Object v, Class type) {
+    if (! (v instanceof Object[] && type.isArray())) {
+      return v;
+    }
+
+    Object[] array = (Object[]) v;
+    Object result = Array.newInstance(type.getComponentType(), array.length);
+    for (int i = 0; i < array.length; ++i) {
+      Array.set(result, i, array[i]);
+    }
+    return result;
+  }
+
   private static Object[] parseAnnotation(ClassLoader loader,
                                           Object pool,
                                           InputStream in)
@@ -315,9 +332,9 @@ public class Classes {
   public static Class forCanonicalName(ClassLoader loader, String name) {
     try {
       if (name.startsWith("[")) {
-        return forName(name, true, loader);
+        return forName(name, false, loader);
       } else if (name.startsWith("L")) {
-        return forName(name.substring(1, name.length() - 1), true, loader);
+        return forName(name.substring(1, name.length() - 1), false, loader);
       } else {
         if (name.length() == 1) {
           return SystemClassLoader.getClass
diff --git a/classpath/java/lang/reflect/Method.java b/classpath/java/lang/reflect/Method.java
index 520e980..2e4252c 100644
--- a/classpath/java/lang/reflect/Method.java
+++ b/classpath/java/lang/reflect/Method.java
@@ -158,7 +158,9 @@ public class Method<T> extends AccessibleObject implements Member {
 
   public Object getDefaultValue() {
     ClassLoader loader = getDeclaringClass().getClassLoader();
-    return Classes.getAnnotationDefaultValue(loader, vmMethod.addendum);
+    return Classes.annotationValue
+      (Classes.getAnnotationDefaultValue(loader, vmMethod.addendum),
+       getReturnType());
   }
 
   public Class<?>[] getExceptionTypes() {
-- 
2.43.0


From 42039c45ac8aa17e7350cdf50a20921b294e1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 112/211] fix: generic signatures with interface bounds and
 several bounds

---
 classpath/java/lang/reflect/SignatureParser.java | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/classpath/java/lang/reflect/SignatureParser.java b/classpath/java/lang/reflect/SignatureParser.java
index b32f4fd..b21685c 100644
--- a/classpath/java/lang/reflect/SignatureParser.java
+++ b/classpath/java/lang/reflect/SignatureParser.java
@@ -188,6 +188,7 @@ public class SignatureParser {
               }
               String typeVarName = new String(signChars, i, colon - i);
               i = colon + 1;
+              if (signChars[i] == ':') i++; // no class bound
               
               int start = i;
               int angles = 0;
@@ -203,6 +204,15 @@ public class SignatureParser {
               varsList.add(tv);
 
               i++;
+              while (signChars[i] == ':') { // further bounds
+                angles = 0;
+                while (angles > 0 || signChars[i] != ';') {
+                  if (signChars[i] == '<') angles ++;
+                  else if (signChars[i] == '>') angles --;
+                  i++;
+                }
+                i++;
+              }
             } while (signChars[i] != '>');
           
           }
-- 
2.43.0


From f48774cb50514f959f76c1c9cbcf4940d783b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 113/211] fix: Class.getSimpleName of local and anonymous
 classes

---
 classpath/java/lang/Class.java | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index 12cfa9a..d9811c2 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -135,7 +135,16 @@ public final class Class <T>
       String name = getCanonicalName();
       int index = name.lastIndexOf('.');
       if (index >= 0) {
-        return name.substring(index + 1);
+        ++ index;
+        if (getName().charAt(index - 1) == '$') {
+          // local and anonymous classes have a number before their name
+          while (index < name.length()
+                 && name.charAt(index) >= '0' && name.charAt(index) <= '9')
+          {
+            ++ index;
+          }
+        }
+        return name.substring(index);
       } else {
         return name;
       }
-- 
2.43.0


From 5ac05d958cd853f0f6e52d96d37cdc5bd3a81dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 114/211] fix: Class.getEnumConstants is null for everything
 but enum classes

---
 classpath/java/lang/Class.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index d9811c2..1323540 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -490,7 +490,7 @@ public final class Class <T>
   public native Constructor getEnclosingConstructor();
 
   public T[] getEnumConstants() {
-    if (Enum.class.isAssignableFrom(this)) {
+    if (isEnum()) {
       try {
         return (T[]) getMethod("values").invoke(null);
       } catch (Exception e) {
-- 
2.43.0


From 6d878fbef557827daaa9c8225bdaef236826dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 115/211] fix: Class.getEnclosingClass of member classes;
 arrays are not member classes

---
 classpath/java/lang/Class.java |  2 +-
 src/builtin.cpp                | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index 1323540..6597877 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -610,7 +610,7 @@ public final class Class <T>
     final String name = getName();
     // Find the last dollar, as classes can be nested
     int dollar = name.lastIndexOf('$');
-    if (dollar < 0) return ClassType.GLOBAL;
+    if (dollar < 0 || isArray()) return ClassType.GLOBAL;
 
     // Find the first non-digit after the dollar, if any
     final char[] chars = name.toCharArray();
diff --git a/src/builtin.cpp b/src/builtin.cpp
index 4369ec6..f7d1c93 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -1325,6 +1325,21 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
       return reinterpret_cast<uintptr_t>(
           getJClass(t, resolveClass(t, c->loader(), enclosingClass)));
     }
+
+    // a member class has no EnclosingMethod attribute
+    if (addendum->innerClassTable()) {
+      GcArray* table = cast<GcArray>(t, addendum->innerClassTable());
+      for (unsigned i = 0; i < table->length(); ++i) {
+        GcInnerClassReference* reference
+            = cast<GcInnerClassReference>(t, table->body()[i]);
+        if (reference->outer()
+            and strcmp(reference->inner()->body().begin(),
+                       c->name()->body().begin()) == 0) {
+          return reinterpret_cast<uintptr_t>(getJClass(
+              t, resolveClass(t, c->loader(), reference->outer())));
+        }
+      }
+    }
   }
   return 0;
 }
-- 
2.43.0


From e9d030767d9f704cbf0d006be0499b2db66b8fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 116/211] fix: ClassLoader.getSystemClassLoader returns the
 loader of application classes, so that their resources are found

---
 classpath/java/lang/ClassLoader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/ClassLoader.java b/classpath/java/lang/ClassLoader.java
index 045ccb1..f34e64f 100644
--- a/classpath/java/lang/ClassLoader.java
+++ b/classpath/java/lang/ClassLoader.java
@@ -99,7 +99,7 @@ public abstract class ClassLoader {
     }
 
   public static ClassLoader getSystemClassLoader() {
-    return ClassLoader.class.getClassLoader();
+    return avian.SystemClassLoader.appLoader();
   }
 
   protected Class defineClass(String name, byte[] b, int offset, int length) {
-- 
2.43.0


From fb5e64745251cfed98a58e78a33bfbbf933de53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 117/211] fix: class path elements are added once, so jar files
 whose manifests refer to each other don't overflow the stack

---
 src/finder.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/finder.cpp b/src/finder.cpp
index e16df51..d3977bc 100644
--- a/src/finder.cpp
+++ b/src/finder.cpp
@@ -49,6 +49,12 @@ class Element {
   virtual const char* sourceUrl() = 0;
   virtual void dispose() = 0;
 
+  // the file or directory as given in the path, if that's what it is
+  virtual const char* pathName()
+  {
+    return 0;
+  }
+
   Element* next;
 };
 
@@ -168,6 +174,11 @@ class DirectoryElement : public Element {
     return type;
   }
 
+  virtual const char* pathName()
+  {
+    return originalName;
+  }
+
   virtual const char* urlPrefix()
   {
     return urlPrefix_;
@@ -564,6 +575,11 @@ class JarElement : public Element {
     return type;
   }
 
+  virtual const char* pathName()
+  {
+    return originalName;
+  }
+
   virtual const char* urlPrefix()
   {
     return urlPrefix_;
@@ -664,6 +680,11 @@ class BuiltinElement : public JarElement {
     }
   }
 
+  virtual const char* pathName()
+  {
+    return 0;
+  }
+
   virtual const char* urlPrefix()
   {
     return "avianvmresource:";
@@ -881,7 +902,18 @@ void add(System* s,
     name[tokenLength] = 0;
 
     size_t length;
-    switch (s->stat(name, &length)) {
+    System::FileType type = s->stat(name, &length);
+
+    // an element already there adds nothing, and the manifests of jar
+    // files may refer to each other
+    for (Element* e = *first; e; e = e->next) {
+      if (e->pathName() and strcmp(e->pathName(), name) == 0) {
+        type = System::TypeDoesNotExist;
+        break;
+      }
+    }
+
+    switch (type) {
     case System::TypeFile: {
       addJar(s, first, last, allocator, name, bootLibrary);
     } break;
-- 
2.43.0


From 786bbd08ff0b841b6a73ce1d22320d472ba5ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 118/211] fix: a Thread starts only once and may be interrupted
 before it starts and after it ends (the VM used a null or dangling pointer)

---
 classpath/java/lang/Thread.java | 18 +++++++-----------
 src/classpath-avian.cpp         | 10 ++--------
 2 files changed, 9 insertions(+), 19 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 0dea70a..84eb561 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -83,14 +83,14 @@ public class Thread implements Runnable {
   }
 
   public synchronized void start() {
-    if (peer != 0) {
-      throw new IllegalStateException("thread already started");
+    if (getState() != State.NEW) {
+      throw new IllegalThreadStateException("thread already started");
     }
 
     state = (byte) State.RUNNABLE.ordinal();
 
-    peer = doStart();
-    if (peer == 0) {
+    // the VM sets peer, and clears it again when the thread ends
+    if (doStart() == 0) {
       state = (byte) State.NEW.ordinal();
       throw new RuntimeException("unable to start native thread");
     }
@@ -142,17 +142,13 @@ public class Thread implements Runnable {
 
   public static native Thread currentThread();
 
-  public void interrupt() {
-    interrupt(peer);
-  }
-
-  private static native boolean interrupt(long peer);
+  public native void interrupt();
 
   public static boolean interrupted() {
-    return interrupted(currentThread().peer);
+    return interrupted(currentThread());
   }
 
-  private static native boolean interrupted(long peer);
+  private static native boolean interrupted(Thread thread);
 
   public boolean isInterrupted() {
     return interrupted;
diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index 41ca4b1..73c998c 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -554,20 +554,14 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
 extern "C" AVIAN_EXPORT void JNICALL
     Avian_java_lang_Thread_interrupt(Thread* t, object, uintptr_t* arguments)
 {
-  int64_t peer;
-  memcpy(&peer, arguments, 8);
-
-  threadInterrupt(t, reinterpret_cast<Thread*>(peer)->javaThread);
+  threadInterrupt(t, cast<GcThread>(t, reinterpret_cast<object>(*arguments)));
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
     Avian_java_lang_Thread_interrupted(Thread* t, object, uintptr_t* arguments)
 {
-  int64_t peer;
-  memcpy(&peer, arguments, 8);
-
   return threadIsInterrupted(
-      t, reinterpret_cast<Thread*>(peer)->javaThread, true);
+      t, cast<GcThread>(t, reinterpret_cast<object>(*arguments)), true);
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
-- 
2.43.0


From df0f206904e43bdaed5fb013adefecd2cc7a8ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 119/211] fix: Thread.join returns at once for a thread not
 started and waits without limit for 0, negative times are refused, setDaemon
 throws IllegalThreadStateException

---
 classpath/java/lang/Thread.java | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 84eb561..eee3584 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -155,7 +155,9 @@ public class Thread implements Runnable {
   }
 
   public static void sleep(long milliseconds) throws InterruptedException {
-    if (milliseconds <= 0) {
+    if (milliseconds < 0) {
+      throw new IllegalArgumentException();
+    } else if (milliseconds == 0) {
       milliseconds = 1;
     }
 
@@ -251,7 +253,7 @@ public class Thread implements Runnable {
 
   public synchronized void setDaemon(boolean v) {
     if (getState() != State.NEW) {
-      throw new IllegalStateException();
+      throw new IllegalThreadStateException();
     }
 
     daemon = v;
@@ -260,16 +262,23 @@ public class Thread implements Runnable {
   public static native void yield();
 
   public synchronized void join() throws InterruptedException {
-    while (getState() != State.TERMINATED) {
+    while (isAlive()) {
       wait();
     }
   }
 
   public synchronized void join(long milliseconds) throws InterruptedException
   {
+    if (milliseconds < 0) {
+      throw new IllegalArgumentException();
+    } else if (milliseconds == 0) {
+      join();
+      return;
+    }
+
     long then = System.currentTimeMillis();
     long remaining = milliseconds;
-    while (remaining > 0 && getState() != State.TERMINATED) {
+    while (remaining > 0 && isAlive()) {
       wait(remaining);
 
       remaining = milliseconds - (System.currentTimeMillis() - then);
-- 
2.43.0


From 6b4b1e557bb847cd3116c7ca40119bcf8cd2515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 120/211] fix: Object.wait refuses a negative time

---
 src/builtin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/builtin.cpp b/src/builtin.cpp
index f7d1c93..4919ce6 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -1379,6 +1379,10 @@ extern "C" AVIAN_EXPORT void JNICALL
   int64_t milliseconds;
   memcpy(&milliseconds, arguments + 1, 8);
 
+  if (milliseconds < 0) {
+    throwNew(t, GcIllegalArgumentException::Type);
+  }
+
   vm::wait(t, this_, milliseconds);
 }
 
-- 
2.43.0


From 0a96e2d77773ac347b835f6e84eff69604cf874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 121/211] fix: ConcurrentLinkedQueue and object streams look up
 private fields with getDeclaredField

---
 classpath/java/io/ObjectInputStream.java                  | 2 +-
 classpath/java/io/ObjectOutputStream.java                 | 2 +-
 classpath/java/util/concurrent/ConcurrentLinkedQueue.java | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index 6667714..efd3f7c 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -366,7 +366,7 @@ public class ObjectInputStream extends InputStream implements DataInput {
     result.clazz = loader.loadClass(className);
     long serialVersionUID = rawLong();
     try {
-      Field field = result.clazz.getField("serialVersionUID");
+      Field field = result.clazz.getDeclaredField("serialVersionUID");
       long expected = field.getLong(null);
       if (expected != serialVersionUID) {
         throw new IOException("Incompatible serial version UID: 0x"
diff --git a/classpath/java/io/ObjectOutputStream.java b/classpath/java/io/ObjectOutputStream.java
index 0ed12a2..ee2c18e 100644
--- a/classpath/java/io/ObjectOutputStream.java
+++ b/classpath/java/io/ObjectOutputStream.java
@@ -202,7 +202,7 @@ public class ObjectOutputStream extends OutputStream implements DataOutput {
     // serial version UID
     long serialVersionUID = 1l;
     try {
-      Field field = clazz.getField("serialVersionUID");
+      Field field = clazz.getDeclaredField("serialVersionUID");
       serialVersionUID = field.getLong(null);
     } catch (Exception ignored) {}
     rawLong(serialVersionUID);
diff --git a/classpath/java/util/concurrent/ConcurrentLinkedQueue.java b/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
index 21c64cf..c9112a4 100644
--- a/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
+++ b/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
@@ -24,13 +24,13 @@ public class ConcurrentLinkedQueue<T> extends AbstractQueue<T> {
   static {
     try {
       QueueHead = Atomic.getOffset
-        (ConcurrentLinkedQueue.class.getField("head"));
+        (ConcurrentLinkedQueue.class.getDeclaredField("head"));
 
       QueueTail = Atomic.getOffset
-        (ConcurrentLinkedQueue.class.getField("tail"));
+        (ConcurrentLinkedQueue.class.getDeclaredField("tail"));
 
       NodeNext = Atomic.getOffset
-        (Node.class.getField("next"));
+        (Node.class.getDeclaredField("next"));
     } catch (NoSuchFieldException e) {
       throw new RuntimeException(e);
     }
-- 
2.43.0


From 01aef47c1dfd46e42c5ba44843e266fe61177eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 122/211] fix: TimeUnit conversions saturate on every overflow

---
 classpath/java/util/concurrent/TimeUnit.java | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/classpath/java/util/concurrent/TimeUnit.java b/classpath/java/util/concurrent/TimeUnit.java
index 3503d67..1cd6134 100644
--- a/classpath/java/util/concurrent/TimeUnit.java
+++ b/classpath/java/util/concurrent/TimeUnit.java
@@ -362,13 +362,12 @@ public enum TimeUnit {
   private static final long MINUETS_PER_DAY = MINUETS_PER_HOUR * HOURS_PER_DAY;
   
   private static long scale(long value, long conversion) {
-    long result = value * conversion;
-    if (value > 0 && result < value) {
+    if (value > Long.MAX_VALUE / conversion) {
       return Long.MAX_VALUE;
-    } else if (value < 0 && result > value) { 
+    } else if (value < Long.MIN_VALUE / conversion) {
       return Long.MIN_VALUE;
     } else {
-      return result;
+      return value * conversion;
     }
   }
   
-- 
2.43.0


From 429f2082bb89d26e1c8f46588262fb3f39a284c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 123/211] fix: AtomicReferenceArray checks its indices

---
 .../concurrent/atomic/AtomicReferenceArray.java   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/classpath/java/util/concurrent/atomic/AtomicReferenceArray.java b/classpath/java/util/concurrent/atomic/AtomicReferenceArray.java
index 96f6f47..5cd3997 100644
--- a/classpath/java/util/concurrent/atomic/AtomicReferenceArray.java
+++ b/classpath/java/util/concurrent/atomic/AtomicReferenceArray.java
@@ -25,24 +25,31 @@ public class AtomicReferenceArray<T> {
     array = new Object[length];
   }
   
+  private long offset(int index) {
+    if (index < 0 || index >= array.length) {
+      throw new IndexOutOfBoundsException("index " + index);
+    }
+    return arrayOffset + (index * arrayScale);
+  }
+
   public T get(int index) {
     return (T) unsafe.getObjectVolatile
-      (array, arrayOffset + (index * arrayScale));
+      (array, offset(index));
   }
   
   public void set(int index, T newValue) {
     unsafe.putObjectVolatile
-      (array, arrayOffset + (index * arrayScale), newValue);
+      (array, offset(index), newValue);
   }
   
   public void lazySet(int index, T newValue) {
     unsafe.putOrderedObject
-      (array, arrayOffset + (index * arrayScale), newValue);
+      (array, offset(index), newValue);
   }
   
   public boolean compareAndSet(int index, T expect, T update) {
     return unsafe.compareAndSwapObject
-      (array, arrayOffset + (index * arrayScale), expect, update);
+      (array, offset(index), expect, update);
   }
   
   public boolean weakCompareAndSet(int index, T expect, T update) {
-- 
2.43.0


From af32cbf8f67f9b87a15ba84209381f5cc9480b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 124/211] fix: ConcurrentHashMap loses no keys whose hash codes
 differ by more than the greatest int

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index 5610323..32f25ef 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -368,7 +368,7 @@ public class ConcurrentHashMap<K,V>
     }
 
     public int compareTo(Node<T> n) {
-      return key - n.key;
+      return key < n.key ? -1 : (key > n.key ? 1 : 0);
     }
   }
 
-- 
2.43.0


From 8c8d951a130bb33893be2c9b6d50aea71b0e718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 125/211] fix: ConcurrentLinkedQueue.isEmpty works

---
 classpath/java/util/concurrent/ConcurrentLinkedQueue.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/concurrent/ConcurrentLinkedQueue.java b/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
index c9112a4..06fa47a 100644
--- a/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
+++ b/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
@@ -124,7 +124,7 @@ public class ConcurrentLinkedQueue<T> extends AbstractQueue<T> {
 
   @Override
   public boolean isEmpty() {
-    return size() == 0;
+    return peek() == null;
   }
 
   @Override
-- 
2.43.0


From ed58a5bbbd5aff335229bf82e87d0a4ea3b0afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 126/211] fix: LinkedBlockingQueue, ConcurrentLinkedQueue and
 FutureTask refuse null

---
 .../java/util/concurrent/ConcurrentLinkedQueue.java      | 3 +++
 classpath/java/util/concurrent/FutureTask.java           | 3 +++
 classpath/java/util/concurrent/LinkedBlockingQueue.java  | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/classpath/java/util/concurrent/ConcurrentLinkedQueue.java b/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
index 06fa47a..7d8c408 100644
--- a/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
+++ b/classpath/java/util/concurrent/ConcurrentLinkedQueue.java
@@ -54,6 +54,9 @@ public class ConcurrentLinkedQueue<T> extends AbstractQueue<T> {
 
   @Override
   public boolean add(T value) {
+    if (value == null) {
+      throw new NullPointerException();
+    }
     Node<T> n = new Node<T>(value, null);
     while (true) {
       Node<T> t = tail;
diff --git a/classpath/java/util/concurrent/FutureTask.java b/classpath/java/util/concurrent/FutureTask.java
index 967d2c8..bd48dca 100644
--- a/classpath/java/util/concurrent/FutureTask.java
+++ b/classpath/java/util/concurrent/FutureTask.java
@@ -34,6 +34,9 @@ public class FutureTask<T> implements RunnableFuture<T> {
   }
   
   public FutureTask(Callable<T> callable) {
+    if (callable == null) {
+      throw new NullPointerException();
+    }
     currentState = new AtomicReference<State>(State.New);
     this.callable = callable;
     notifyLock = new Object();
diff --git a/classpath/java/util/concurrent/LinkedBlockingQueue.java b/classpath/java/util/concurrent/LinkedBlockingQueue.java
index 49be16c..768a782 100644
--- a/classpath/java/util/concurrent/LinkedBlockingQueue.java
+++ b/classpath/java/util/concurrent/LinkedBlockingQueue.java
@@ -97,6 +97,9 @@ public class LinkedBlockingQueue<T> extends AbstractQueue<T>
 
   @Override
   public boolean offer(T element) {
+    if (element == null) {
+      throw new NullPointerException();
+    }
     synchronized (collectionLock) {
       if (capacity > storage.size()) {
         storage.addLast(element);
@@ -112,6 +115,9 @@ public class LinkedBlockingQueue<T> extends AbstractQueue<T>
 
   @Override
   public boolean offer(T e, long timeout, TimeUnit unit) throws InterruptedException {
+    if (e == null) {
+      throw new NullPointerException();
+    }
     long timeoutInMillis = unit.toMillis(timeout);
     synchronized (collectionLock) {
       // block till we can add or have reached timeout
@@ -123,6 +129,9 @@ public class LinkedBlockingQueue<T> extends AbstractQueue<T>
 
   @Override
   public void put(T e) throws InterruptedException {
+    if (e == null) {
+      throw new NullPointerException();
+    }
     synchronized (collectionLock) {
       // block till we have space
       blockTillNotFull();
-- 
2.43.0


From 434b5ae86b6c00c1156586f44bda0fe1a33553b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 127/211] fix: LinkedBlockingQueue refuses a capacity which is
 not positive

---
 classpath/java/util/concurrent/LinkedBlockingQueue.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/classpath/java/util/concurrent/LinkedBlockingQueue.java b/classpath/java/util/concurrent/LinkedBlockingQueue.java
index 768a782..d8844cc 100644
--- a/classpath/java/util/concurrent/LinkedBlockingQueue.java
+++ b/classpath/java/util/concurrent/LinkedBlockingQueue.java
@@ -27,6 +27,9 @@ public class LinkedBlockingQueue<T> extends AbstractQueue<T>
   
   public LinkedBlockingQueue(int capacity) {
     collectionLock = new Object();
+    if (capacity <= 0) {
+      throw new IllegalArgumentException();
+    }
     this.capacity = capacity;
     storage = new LinkedList<T>();
   }
-- 
2.43.0


From 7f926fada4077e123f70630fc7ad56096aebc8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 128/211] fix: fix: casting to an array of an unresolved
 bootstrap interface (Cloneable[])

---
 src/machine.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/machine.cpp b/src/machine.cpp
index 1383da4..f6c2332 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4596,6 +4596,20 @@ bool isAssignableFrom(Thread* t, GcClass* a, GcClass* b)
   if (a == b)
     return true;
 
+  // a bootstrap class which has not been resolved yet (e.g. Cloneable)
+  // does not say whether it is an interface
+  if ((a->vmFlags() & BootstrapFlag) and b->arrayDimensions()) {
+    PROTECT(t, a);
+    PROTECT(t, b);
+
+    uintptr_t arguments[] = {reinterpret_cast<uintptr_t>(a->name())};
+
+    if (run(t, resolveBootstrap, arguments) == 0) {
+      t->exception = 0;
+      return false;
+    }
+  }
+
   if (a->flags() & ACC_INTERFACE) {
     if (b->vmFlags() & BootstrapFlag) {
       uintptr_t arguments[] = {reinterpret_cast<uintptr_t>(b->name())};
-- 
2.43.0


From b84c4a09b74e20040a0b25f56cc3b90bdf530cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 129/211] fix: regex negative lookbehind was compiled as a
 negative lookahead

---
 classpath/java/util/regex/Compiler.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/regex/Compiler.java b/classpath/java/util/regex/Compiler.java
index 4e495a5..e6b6976 100644
--- a/classpath/java/util/regex/Compiler.java
+++ b/classpath/java/util/regex/Compiler.java
@@ -319,7 +319,7 @@ class Compiler implements PikeVMOpcodes {
       }
       output.add(forward ?
         (negative ? NEGATIVE_LOOKAHEAD : LOOKAHEAD) :
-        (negative ? NEGATIVE_LOOKAHEAD : LOOKBEHIND));
+        (negative ? NEGATIVE_LOOKBEHIND : LOOKBEHIND));
       output.add(output.addLookaround(vm));
     }
 
-- 
2.43.0


From 2ee8cbbbb84c01525471638b7e84783449d9ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 130/211] fix: regex quantifier {0} is valid

---
 classpath/java/util/regex/Compiler.java | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/classpath/java/util/regex/Compiler.java b/classpath/java/util/regex/Compiler.java
index e6b6976..e512ebb 100644
--- a/classpath/java/util/regex/Compiler.java
+++ b/classpath/java/util/regex/Compiler.java
@@ -122,9 +122,6 @@ class Compiler implements PikeVMOpcodes {
         throw new RuntimeException("Unexpected min count: " + minCount);
       }
       if (maxCount != -1) {
-        if (maxCount == 0) {
-          throw new RuntimeException("Unexpected max count: " + maxCount);
-        }
         if (minCount > maxCount) {
           throw new RuntimeException("Unexpected range: " + minCount + ", " + maxCount);
         }
@@ -136,6 +133,14 @@ class Compiler implements PikeVMOpcodes {
     }
 
     protected void writeCode(Output output) {
+      if (maxCount == 0) {
+        // never matches anything, but its groups count
+        output.add(JMP);
+        int jump = output.markJump();
+        expr.writeCode(output);
+        output.setJump(jump);
+        return;
+      }
       int start = output.offset;
       int splitJmp = greedy ? SPLIT_JMP : SPLIT;
       int split = greedy ? SPLIT : SPLIT_JMP;
-- 
2.43.0


From d18c5b80f63737cc4b77fc34412af7eccc5e2316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 131/211] fix: a regex group which is repeated by {n} counted
 as several groups

---
 classpath/java/util/regex/Compiler.java | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/regex/Compiler.java b/classpath/java/util/regex/Compiler.java
index e512ebb..8d06ed3 100644
--- a/classpath/java/util/regex/Compiler.java
+++ b/classpath/java/util/regex/Compiler.java
@@ -194,12 +194,14 @@ class Compiler implements PikeVMOpcodes {
 
   private class Group extends Expression {
     private final boolean capturing;
+    private final int groupIndex;
 
     private ArrayList<Expression> list = new ArrayList<Expression>();
     private ArrayList<Group> alternatives;
 
     public Group(boolean capturing, ArrayList<Expression> initialList) {
       this.capturing = capturing;
+      groupIndex = capturing ? capturingGroups++ : -1;
       if (initialList != null) {
         list.addAll(initialList);
       }
@@ -251,9 +253,10 @@ class Compiler implements PikeVMOpcodes {
     }
 
     protected void writeCode(Output output) {
-      int groupIndex = -1;
       if (capturing) {
-        groupIndex = ++ output.groupCount;
+        if (output.groupCount < groupIndex) {
+          output.groupCount = groupIndex;
+        }
         output.add(SAVE_OFFSET);
         output.add(2 * groupIndex);
       }
@@ -365,6 +368,9 @@ class Compiler implements PikeVMOpcodes {
     }
   }
 
+  // counted as they are parsed: repeating a group does not make more groups
+  private int capturingGroups;
+
   private Group0 root;
   private Stack<Group> groups;
 
-- 
2.43.0


From 606134873f9c5c7532a2136e7cb4992c8059db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 132/211] fix: regex search lost better matches which take
 longer than the first found

---
 classpath/java/util/regex/PikeVM.java | 32 ++-------------------------
 1 file changed, 2 insertions(+), 30 deletions(-)

diff --git a/classpath/java/util/regex/PikeVM.java b/classpath/java/util/regex/PikeVM.java
index b364aec..ab7fca9 100644
--- a/classpath/java/util/regex/PikeVM.java
+++ b/classpath/java/util/regex/PikeVM.java
@@ -209,31 +209,6 @@ class PikeVM implements PikeVMOpcodes {
       result.set(groupStart, groupEnd);
     }
 
-    private void mustStartMatchAt(int start) {
-      int previous = -1;
-      for (int pc = head; pc >= 0; ) {
-        int nextPC = next[pc] - 1;
-        if (start + 1 == offsets[pc][0]) {
-          previous = pc;
-        } else {
-          next[pc] = 0;
-          offsets[pc] = null;
-          if (pc == tail) {
-            head = tail = -1;
-          } else if (previous < 0) {
-            head = nextPC;
-          } else {
-            next[previous] = 1 + nextPC;
-          }
-        }
-        pc = nextPC;
-      }
-    }
-
-    private int startOffset(int pc) {
-      return offsets[pc][0] - 1;
-    }
-
     public boolean isEmpty() {
       return head < 0;
     }
@@ -327,11 +302,8 @@ class PikeVM implements PikeVMOpcodes {
           }
           current.setResult(result);
 
-          // now that we found a match, even higher-priority matches must match
-          // at the same start offset
-          if (!anchorStart) {
-            next.mustStartMatchAt(current.startOffset(pc));
-          }
+          // only the threads of higher priority, which are in the queue for
+          // the next step already, can still find a better match
           foundMatch = true;
           break;
         }
-- 
2.43.0


From 79a9d7af515fdcf4255c50847d162363b1862b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 133/211] fix: regex search went on with threads cut off by a
 match

---
 classpath/java/util/regex/PikeVM.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/regex/PikeVM.java b/classpath/java/util/regex/PikeVM.java
index ab7fca9..d92c347 100644
--- a/classpath/java/util/regex/PikeVM.java
+++ b/classpath/java/util/regex/PikeVM.java
@@ -417,8 +417,10 @@ class PikeVM implements PikeVMOpcodes {
             + " at pc " + pc);
         }
       }
-      // clean linked thread list (and states)
+      // clean linked thread list (and states), and the threads of lower
+      // priority than a match, which have not been started
       current.clean();
+      queued.clean();
 
       // prepare for next step
       ThreadQueue swap = queued;
-- 
2.43.0


From 0333568b66467a042da3a0fdf27751c3ae59d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 134/211] fix: regex word boundaries at the ends of the input

---
 classpath/java/util/regex/PikeVM.java | 30 +++++++--------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/classpath/java/util/regex/PikeVM.java b/classpath/java/util/regex/PikeVM.java
index d92c347..24de879 100644
--- a/classpath/java/util/regex/PikeVM.java
+++ b/classpath/java/util/regex/PikeVM.java
@@ -273,7 +273,7 @@ class PikeVM implements PikeVMOpcodes {
     ThreadQueue queued = new ThreadQueue(startPC);
 
     boolean foundMatch = false;
-    int step = end > start ? +1 : -1;
+    int step = end >= start && end >= 0 ? +1 : -1;
     for (int i = start; i != end + step; i += step) {
       if (queued.isEmpty()) {
         // no threads left
@@ -321,28 +321,12 @@ class PikeVM implements PikeVMOpcodes {
         case WORD_BOUNDARY:
         case NON_WORD_BOUNDARY: {
           int i2 = i - step;
-          int c2 = i2 < 0 || i2 >= characters.length ? -1 : characters[i2];
-          switch (opcode) {
-          case WORD_BOUNDARY:
-            if ((c2 < 0 || !wordCharacter.matches((char)c2))) {
-              if (wordCharacter.matches(c)) {
-                current.queueImmediately(pc, pc + 1, false);
-              }
-            } else if (i >= 0 && i < characters.length &&
-                !wordCharacter.matches(c)) {
-              current.queueImmediately(pc, pc + 1, false);
-            }
-            break;
-          case NON_WORD_BOUNDARY:
-            if ((c2 < 0 || !wordCharacter.matches((char)c2))) {
-              if (i >= 0 && i < characters.length &&
-                  !wordCharacter.matches(c)) {
-                current.queueImmediately(pc, pc + 1, false);
-              }
-            } else if (wordCharacter.matches(c)) {
-              current.queueImmediately(pc, pc + 1, false);
-            }
-            break;
+          boolean before = i2 >= 0 && i2 < characters.length
+            && wordCharacter.matches(characters[i2]);
+          boolean after = i >= 0 && i < characters.length
+            && wordCharacter.matches(characters[i]);
+          if ((before != after) == (opcode == WORD_BOUNDARY)) {
+            current.queueImmediately(pc, pc + 1, false);
           }
           break;
         }
-- 
2.43.0


From f0f9028e2683a69d2059edd64e71d5bd4b043612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 135/211] fix: regex $ also matches before a final line
 terminator

---
 classpath/java/util/regex/PikeVM.java | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/regex/PikeVM.java b/classpath/java/util/regex/PikeVM.java
index 24de879..fac5ba6 100644
--- a/classpath/java/util/regex/PikeVM.java
+++ b/classpath/java/util/regex/PikeVM.java
@@ -337,8 +337,8 @@ class PikeVM implements PikeVMOpcodes {
           }
           break;
         case LINE_END:
-          if (i == characters.length || (multiLine &&
-              lineTerminator.matches(c))) {
+          if (i == characters.length || isFinalTerminator(characters, i)
+              || (multiLine && lineTerminator.matches(c))) {
             current.queueImmediately(pc, pc + 1, false);
           }
           break;
@@ -414,6 +414,15 @@ class PikeVM implements PikeVMOpcodes {
     return foundMatch;
   }
 
+  private static boolean isFinalTerminator(char[] characters, int i) {
+    if (i == characters.length - 1) {
+      return lineTerminator.matches(characters[i])
+        && !(characters[i] == '\n' && i > 0 && characters[i - 1] == '\r');
+    }
+    return i == characters.length - 2 && i >= 0
+      && characters[i] == '\r' && characters[i + 1] == '\n';
+  }
+
   /**
    * Determines whether this machine recognizes a pattern without special
    * operators.
-- 
2.43.0


From 7a4da4a750f27dccb88a9ed4397afd6e66610a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 136/211] fix: regex . matches NUL and no line terminator

---
 classpath/java/util/regex/PikeVM.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/regex/PikeVM.java b/classpath/java/util/regex/PikeVM.java
index fac5ba6..ba042ec 100644
--- a/classpath/java/util/regex/PikeVM.java
+++ b/classpath/java/util/regex/PikeVM.java
@@ -311,7 +311,7 @@ class PikeVM implements PikeVMOpcodes {
         int opcode = program[pc];
         switch (opcode) {
         case DOT:
-          if (c != '\0' && c != '\r' && c != '\n') {
+          if (i != end && !lineTerminator.matches(c)) {
             current.queueNext(pc, pc + 1, next);
           }
           break;
-- 
2.43.0


From 38c582c97382f4ecd9b735e74d80296cc7d1e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 137/211] fix: regex threads keep the priority of the first
 alternative which reaches a state

---
 classpath/java/util/regex/PikeVM.java | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/regex/PikeVM.java b/classpath/java/util/regex/PikeVM.java
index ba042ec..f4eb0fa 100644
--- a/classpath/java/util/regex/PikeVM.java
+++ b/classpath/java/util/regex/PikeVM.java
@@ -147,7 +147,20 @@ class PikeVM implements PikeVMOpcodes {
     public boolean queueImmediately(int currentPC, int nextPC,
         boolean copyThreadState) {
       if (isScheduled(nextPC)) {
-        return false;
+        // a thread of lower priority which has not run in this step yet makes
+        // place for this one, otherwise there is nothing to do
+        int before = currentPC;
+        while (before != tail && next[before] - 1 != nextPC) {
+          before = next[before] - 1;
+        }
+        if (before == tail || nextPC == currentPC) {
+          return false;
+        }
+        next[before] = next[nextPC];
+        next[nextPC] = 0;
+        if (nextPC == tail) {
+          tail = before;
+        }
       }
       int[] offsets = this.offsets[currentPC];
       if (copyThreadState) {
-- 
2.43.0


From 58b9ca7c056c42d31990ce54513be53cc5b6111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 138/211] fix: regex find after an empty match at the end of
 the input

---
 classpath/java/util/regex/RegexMatcher.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/classpath/java/util/regex/RegexMatcher.java b/classpath/java/util/regex/RegexMatcher.java
index acd4f9f..4ded1a1 100644
--- a/classpath/java/util/regex/RegexMatcher.java
+++ b/classpath/java/util/regex/RegexMatcher.java
@@ -54,6 +54,9 @@ public class RegexMatcher extends Matcher {
   }
 
   public boolean find(int offset) {
+    if (offset > array.length) {
+      return false;
+    }
     return vm.matches(array, offset, array.length, false, false, adapter);
   }
 
-- 
2.43.0


From e1bc76d32c1430f33d2ccf89f226678f7f9d46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 139/211] fix: regex character range which ends with an escaped
 character

---
 classpath/java/util/regex/CharacterMatcher.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/classpath/java/util/regex/CharacterMatcher.java b/classpath/java/util/regex/CharacterMatcher.java
index 0df1a94..6277db6 100644
--- a/classpath/java/util/regex/CharacterMatcher.java
+++ b/classpath/java/util/regex/CharacterMatcher.java
@@ -267,6 +267,7 @@ class CharacterMatcher {
           }
           int rangeEnd = description[offset];
           if ('\\' == rangeEnd) {
+            ++offset;
             rangeEnd = parseEscapedCharacter();
             if (rangeEnd < 0) {
               unsupported("invalid range");
-- 
2.43.0


From 42b3535c872809c9df7d2711e78a4883f54819c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 140/211] fix: searching for the empty pattern found the same
 match for ever

---
 classpath/java/util/regex/TrivialMatcher.java | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/classpath/java/util/regex/TrivialMatcher.java b/classpath/java/util/regex/TrivialMatcher.java
index ed4360b..a3e36a7 100644
--- a/classpath/java/util/regex/TrivialMatcher.java
+++ b/classpath/java/util/regex/TrivialMatcher.java
@@ -17,6 +17,7 @@ package java.util.regex;
  */
 class TrivialMatcher extends Matcher {
   private final String pattern;
+  private boolean found;
 
   TrivialMatcher(String pattern, CharSequence input) {
     super(input);
@@ -33,12 +34,26 @@ class TrivialMatcher extends Matcher {
     }
   }
 
+  public boolean find() {
+    // an empty match is not found again
+    return find(end + (found && start == end ? 1 : 0));
+  }
+
+  public Matcher reset(CharSequence input) {
+    found = false;
+    return super.reset(input);
+  }
+
   public boolean find(int start) {
+    if (start > input.length()) {
+      return false;
+    }
     String p = pattern;
     int i = TrivialPattern.indexOf(input, p, start);
     if (i >= 0) {
       this.start = i;
       this.end = i + p.length();
+      found = true;
       return true;
     } else {
       return false;
-- 
2.43.0


From a6b519d0eb17fd21c7e2b95a24ce2a9be4ce1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 141/211] fix: Matcher.replace with empty matches and empty
 input

---
 classpath/java/util/regex/Matcher.java | 27 +++++++-------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/classpath/java/util/regex/Matcher.java b/classpath/java/util/regex/Matcher.java
index a192942..385762a 100644
--- a/classpath/java/util/regex/Matcher.java
+++ b/classpath/java/util/regex/Matcher.java
@@ -54,29 +54,16 @@ public abstract class Matcher {
   protected String replace(String replacement, int limit) {
     reset();
 
-    StringBuilder sb = null;
+    StringBuilder sb = new StringBuilder();
     int index = 0;
     int count = 0;
-    while (count < limit && index < input.length()) {
-      if (find(index)) {
-        if (sb == null) {
-          sb = new StringBuilder();
-        }
-        if (start > index) {
-          sb.append(input.subSequence(index, start));
-        }
-        sb.append(replacement);
-        index = end;
-        ++ count;
-      } else if (index == 0) {
-        return input.toString();
-      } else {
-        break;
-      }
-    }
-    if (index < input.length()) {
-      sb.append(input.subSequence(index, input.length()));
+    while (count < limit && find()) {
+      sb.append(input.subSequence(index, start));
+      sb.append(replacement);
+      index = end;
+      ++ count;
     }
+    sb.append(input.subSequence(index, input.length()));
     return sb.toString();
   }
 
-- 
2.43.0


From 6b128e02ae9659fa7d09db0fa323ace35aa9394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 142/211] fix: Pattern.split: limit and trailing empty strings

---
 classpath/java/util/regex/Pattern.java | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/classpath/java/util/regex/Pattern.java b/classpath/java/util/regex/Pattern.java
index 299de7a..3becbe2 100644
--- a/classpath/java/util/regex/Pattern.java
+++ b/classpath/java/util/regex/Pattern.java
@@ -68,6 +68,7 @@ public abstract class Pattern implements PikeVMOpcodes {
   }
 
   public String[] split(CharSequence input, int limit) {
+    boolean strip = limit == 0;
     if (limit <= 0) {
       limit = Integer.MAX_VALUE;
     }
@@ -75,14 +76,23 @@ public abstract class Pattern implements PikeVMOpcodes {
     List<String> result = new ArrayList<String>();
     int offset = 0;
     for (;;) {
-      if (result.size() >= limit || !matcher.find()) {
+      if (result.size() >= limit - 1 || !matcher.find()) {
         break;
       }
+      if (matcher.end() == 0) {
+        // an empty match at the beginning splits nothing off
+        continue;
+      }
       result.add(input.subSequence(offset, matcher.start()).toString());
       offset = matcher.end();
     }
-    if (offset == 0 || offset < input.length()) {
-      result.add(input.subSequence(offset, input.length()).toString());
+    result.add(input.subSequence(offset, input.length()).toString());
+    if (strip && result.size() > 1) {
+      while (result.size() > 0
+             && result.get(result.size() - 1).length() == 0)
+      {
+        result.remove(result.size() - 1);
+      }
     }
     return result.toArray(new String[result.size()]);
   }
-- 
2.43.0


From 6e0fffca131f367a460aeea11b3fea9253d23c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 143/211] fix: regex escape \\x has two digits, and a colon is
 no digit

---
 classpath/java/util/regex/CharacterMatcher.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/regex/CharacterMatcher.java b/classpath/java/util/regex/CharacterMatcher.java
index 6277db6..1b1895e 100644
--- a/classpath/java/util/regex/CharacterMatcher.java
+++ b/classpath/java/util/regex/CharacterMatcher.java
@@ -177,7 +177,7 @@ class CharacterMatcher {
         return c;
       }
       if (c == 'x' || c == 'u') {
-        int len = digits(offset, 4, 16);
+        int len = digits(offset, c == 'x' ? 2 : 4, 16);
         c = (char)Integer.parseInt(new String(description, offset, len), 16);
         offset += len;
         return c;
@@ -224,6 +224,9 @@ class CharacterMatcher {
           return i;
         }
         if (base > 10 && value >= 10) {
+          if (value < 'A' - '0') {
+            return i;
+          }
           value += 10 - (value >= 'a' - '0' ? 'a' - '0' : 'A' - '0');
         }
         if (value >= base) {
-- 
2.43.0


From d5f99544b105e3710595bf6a51f5e07f72d66fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 144/211] fix: regex character classes which contain negated
 classes

---
 .../java/util/regex/CharacterMatcher.java     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/classpath/java/util/regex/CharacterMatcher.java b/classpath/java/util/regex/CharacterMatcher.java
index 1b1895e..41e6f38 100644
--- a/classpath/java/util/regex/CharacterMatcher.java
+++ b/classpath/java/util/regex/CharacterMatcher.java
@@ -100,7 +100,7 @@ class CharacterMatcher {
 
   private void setMatch(int c) {
     ensureCapacity(c + 1);
-    map[c] = true;
+    map[c] = !inversePattern;
   }
 
   private void ensureCapacity(int length) {
@@ -119,23 +119,21 @@ class CharacterMatcher {
 
   private void merge(CharacterMatcher other) {
     boolean inversePattern = this.inversePattern || other.inversePattern;
-    if ((map.length < other.map.length) ^ inversePattern) {
-      map = java.util.Arrays.copyOf(map, other.map.length);
-    }
+    boolean[] map = new boolean[Math.max(this.map.length, other.map.length)];
     for (int i = 0; i < map.length; ++ i) {
       map[i] = (matches((char)i) || other.matches((char)i)) ^ inversePattern;
     }
+    this.map = map;
     this.inversePattern = inversePattern;
   }
 
   private void intersect(CharacterMatcher other) {
     boolean inversePattern = this.inversePattern && other.inversePattern;
-    if ((map.length > other.map.length) ^ inversePattern) {
-      map = java.util.Arrays.copyOf(map, other.map.length);
-    }
+    boolean[] map = new boolean[Math.max(this.map.length, other.map.length)];
     for (int i = 0; i < map.length; ++ i) {
       map[i] = (matches((char)i) && other.matches((char)i)) ^ inversePattern;
     }
+    this.map = map;
     this.inversePattern = inversePattern;
   }
 
@@ -251,9 +249,9 @@ class CharacterMatcher {
         }
         return null;
       }
-      CharacterMatcher matcher = new CharacterMatcher(new boolean[0],
-        description[++ offset] == '^');
-      if (matcher.inversePattern) {
+      CharacterMatcher matcher = new CharacterMatcher(new boolean[0], false);
+      boolean negated = description[++ offset] == '^';
+      if (negated) {
         ++ offset;
       }
 
@@ -276,9 +274,8 @@ class CharacterMatcher {
               unsupported("invalid range");
             }
           }
-          matcher.ensureCapacity(rangeEnd + 1);
           for (int j = previous + 1; j <= rangeEnd; j++) {
-            matcher.map[j] = true;
+            matcher.setMatch(j);
           }
         } else if (c == '\\') {
           int saved = offset;
@@ -324,6 +321,9 @@ class CharacterMatcher {
         firstCharacter = false;
       }
 
+      if (negated) {
+        matcher.inversePattern = !matcher.inversePattern;
+      }
       return matcher;
     }
 
-- 
2.43.0


From 246260315efbb52587f461625c1ec5db5f8f190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 145/211] fix: ObjectInputStream read a long whose lower half
 is negative wrongly

---
 classpath/java/io/ObjectInputStream.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index efd3f7c..0729b1a 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -84,7 +84,7 @@ public class ObjectInputStream extends InputStream implements DataInput {
   }
 
   private long rawLong() throws IOException {
-    return ((rawInt() & 0xffffffffl) << 32) | rawInt();
+    return ((long)rawInt() << 32) | (rawInt() & 0xffffffffl);
   }
 
   private String rawString() throws IOException {
@@ -159,7 +159,7 @@ public class ObjectInputStream extends InputStream implements DataInput {
   }
 
   private long rawBlockDataLong() throws IOException {
-    return ((rawBlockDataInt() & 0xffffffffl) << 32) | rawBlockDataInt();
+    return ((long)rawBlockDataInt() << 32) | (rawBlockDataInt() & 0xffffffffl);
   }
 
   public boolean readBoolean() throws IOException {
-- 
2.43.0


From 821447bee3f038688bf1abea9d05295cd5b49448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 146/211] fix: ObjectInputStream reads long data blocks

---
 classpath/java/io/ObjectInputStream.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index 0729b1a..eb66924 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -141,6 +141,8 @@ public class ObjectInputStream extends InputStream implements DataInput {
       int b = rawByte();
       if (b == TC_BLOCKDATA) {
         remainingBlockData = rawByte();
+      } else if (b == TC_BLOCKDATALONG) {
+        remainingBlockData = rawInt();
       } else {
         throw new UnsupportedOperationException("Unknown token: 0x"
             + Integer.toHexString(b));
-- 
2.43.0


From a64b00bc4b25776fc61e4d556094628450416b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 147/211] fix: object streams: an object with writeObject
 inside another one

---
 classpath/java/io/ObjectInputStream.java  | 7 +++++--
 classpath/java/io/ObjectOutputStream.java | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index eb66924..d938e90 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -337,11 +337,14 @@ public class ObjectInputStream extends InputStream implements DataInput {
           }
           defaultReadObject(o, classDesc.fields);
         } else {
+          // an object may be read while another one is
+          Object savedCurrent = current;
+          Field[] savedFields = currentFields;
           current = o1;
           currentFields = classDesc.fields;
           readMethod.invoke(o, this);
-          current = null;
-          currentFields = null;
+          current = savedCurrent;
+          currentFields = savedFields;
           expectToken(TC_ENDBLOCKDATA);
         }
       } while ((classDesc = classDesc.superClassDesc) != null);
diff --git a/classpath/java/io/ObjectOutputStream.java b/classpath/java/io/ObjectOutputStream.java
index ee2c18e..7019f47 100644
--- a/classpath/java/io/ObjectOutputStream.java
+++ b/classpath/java/io/ObjectOutputStream.java
@@ -299,9 +299,10 @@ public class ObjectOutputStream extends OutputStream implements DataOutput {
       defaultWriteObject(o);
     } else try {
       classDesc(o.getClass(), SC_WRITE_METHOD);
+      Object savedCurrent = current; // one object may be written while another is
       current = o;
       writeObject.invoke(o, this);
-      current = null;
+      current = savedCurrent;
       rawByte(TC_ENDBLOCKDATA);
     } catch (Exception e) {
       throw new IOException(e);
-- 
2.43.0


From b6cb035fcf72cf9100a00c633e63e965166ef365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 148/211] fix: object streams accepted a class of another
 serial version

---
 classpath/java/io/ObjectInputStream.java  | 14 ++++++++------
 classpath/java/io/ObjectOutputStream.java |  1 +
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index d938e90..aae718f 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -370,15 +370,17 @@ public class ObjectInputStream extends InputStream implements DataInput {
     ClassLoader loader = Thread.currentThread().getContextClassLoader();
     result.clazz = loader.loadClass(className);
     long serialVersionUID = rawLong();
+    long expected = serialVersionUID;
     try {
       Field field = result.clazz.getDeclaredField("serialVersionUID");
-      long expected = field.getLong(null);
-      if (expected != serialVersionUID) {
-        throw new IOException("Incompatible serial version UID: 0x"
-            + Long.toHexString(serialVersionUID) + " != 0x"
-            + Long.toHexString(expected));
-      }
+      field.setAccessible(true);
+      expected = field.getLong(null);
     } catch (Exception ignored) { }
+    if (expected != serialVersionUID) {
+      throw new IOException("Incompatible serial version UID: 0x"
+          + Long.toHexString(serialVersionUID) + " != 0x"
+          + Long.toHexString(expected));
+    }
     references.add(result);
 
     result.flags = rawByte();
diff --git a/classpath/java/io/ObjectOutputStream.java b/classpath/java/io/ObjectOutputStream.java
index 7019f47..c449a22 100644
--- a/classpath/java/io/ObjectOutputStream.java
+++ b/classpath/java/io/ObjectOutputStream.java
@@ -203,6 +203,7 @@ public class ObjectOutputStream extends OutputStream implements DataOutput {
     long serialVersionUID = 1l;
     try {
       Field field = clazz.getDeclaredField("serialVersionUID");
+      field.setAccessible(true);
       serialVersionUID = field.getLong(null);
     } catch (Exception ignored) {}
     rawLong(serialVersionUID);
-- 
2.43.0


From a68c854c1f5f5bbfc6106b0cd52b0b02cf49f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 149/211] fix: ObjectInputStream read the fields of a subclass
 before its superclass's

---
 classpath/java/io/ObjectInputStream.java | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index aae718f..48e3309 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -325,7 +325,14 @@ public class ObjectInputStream extends InputStream implements DataInput {
       Object o = makeInstance(classDesc.clazz.vmClass);
       references.add(o);
 
-      do {
+      // the fields of a superclass come first
+      ArrayList<ClassDesc> descs = new ArrayList<ClassDesc>();
+      for (; classDesc != null; classDesc = classDesc.superClassDesc) {
+        descs.add(0, classDesc);
+      }
+
+      for (ClassDesc desc : descs) {
+        classDesc = desc;
         Object o1 = classDesc.clazz.cast(o);
         boolean customized = (classDesc.flags & SC_WRITE_METHOD) != 0;
         Method readMethod = customized ?
@@ -347,7 +354,7 @@ public class ObjectInputStream extends InputStream implements DataInput {
           currentFields = savedFields;
           expectToken(TC_ENDBLOCKDATA);
         }
-      } while ((classDesc = classDesc.superClassDesc) != null);
+      }
 
       return o;
     } catch (IOException e) {
-- 
2.43.0


From 4ad394278a7a50f32489edb7bd09058f92a8eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 150/211] fix: ObjectInputStream.readUTF of a string which
 spans data blocks

---
 classpath/java/io/ObjectInputStream.java | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index 48e3309..9cb5c08 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -206,13 +206,10 @@ public class ObjectInputStream extends InputStream implements DataInput {
 
   public String readUTF() throws IOException {
     int length = rawBlockDataShort();
-    if (remainingBlockData < length) {
-      throw new IOException("Short block data: "
-          + remainingBlockData + " < " + length);
-    }
     byte[] bytes = new byte[length];
-    readFully(bytes);
-    remainingBlockData -= length;
+    for (int i = 0; i < length; ++i) {
+      bytes[i] = (byte)rawBlockDataByte();
+    }
     return new String(bytes, "UTF-8");
   }
 
-- 
2.43.0


From 0e32294750ba5e29a81c9c13a6444e8c20d49fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 151/211] fix: ObjectInputStream reads a superclass descriptor
 which was read before

---
 classpath/java/io/ObjectInputStream.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index 9cb5c08..c85ebe8 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -423,6 +423,9 @@ public class ObjectInputStream extends InputStream implements DataInput {
     int c = rawByte();
     if (c == TC_CLASSDESC) {
       result.superClassDesc = classDesc();
+    } else if (c == TC_REFERENCE) {
+      int handle = rawInt() - HANDLE_OFFSET;
+      result.superClassDesc = (ClassDesc)references.get(handle);
     } else if (c != TC_NULL) {
       throw new UnsupportedOperationException("Unexpected token: 0x"
           + Integer.toHexString(c));
-- 
2.43.0


From f0fdddec33abda8cf769446fdc6f32c92423c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 152/211] fix: Properties.store did not escape what
 Properties.load treats specially

---
 classpath/java/util/Properties.java | 40 +++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/Properties.java b/classpath/java/util/Properties.java
index b7905b4..5fdebb5 100644
--- a/classpath/java/util/Properties.java
+++ b/classpath/java/util/Properties.java
@@ -31,13 +31,49 @@ public class Properties extends Hashtable {
     for (Iterator it = entrySet().iterator();
          it.hasNext();) {
       Map.Entry entry = (Map.Entry)it.next();
-      os.print(entry.getKey());
+      os.print(escape(String.valueOf(entry.getKey()), true));
       os.print('=');
-      os.println(entry.getValue());
+      os.println(escape(String.valueOf(entry.getValue()), false));
     }
     os.flush();
   }
 
+  private static String escape(String s, boolean key) {
+    StringBuilder sb = new StringBuilder();
+    for (int i = 0; i < s.length(); ++i) {
+      char c = s.charAt(i);
+      switch (c) {
+      case '\n': sb.append("\\n"); break;
+      case '\r': sb.append("\\r"); break;
+      case '\t': sb.append("\\t"); break;
+      case '\f': sb.append("\\f"); break;
+
+      case ' ':
+        if (key || i == 0) {
+          sb.append('\\');
+        }
+        sb.append(c);
+        break;
+
+      case '\\': case '#': case '!': case ':': case '=':
+        sb.append('\\').append(c);
+        break;
+
+      default:
+        if (c < 0x20 || c > 0x7e) {
+          sb.append("\\u");
+          for (int shift = 12; shift >= 0; shift -= 4) {
+            sb.append(Character.forDigit((c >> shift) & 0xF, 16));
+          }
+        } else {
+          sb.append(c);
+        }
+        break;
+      }
+    }
+    return sb.toString();
+  }
+
   public String getProperty(String key) {
     return (String)get(key);
   }
-- 
2.43.0


From 466b7f348a4a58cf66580cbe99450fb3cd1cb09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 153/211] fix: Properties.load mistook continued lines, escapes
 and trailing white space

---
 classpath/java/util/Properties.java | 160 ++++++++++++----------------
 1 file changed, 68 insertions(+), 92 deletions(-)

diff --git a/classpath/java/util/Properties.java b/classpath/java/util/Properties.java
index 5fdebb5..dab07fe 100644
--- a/classpath/java/util/Properties.java
+++ b/classpath/java/util/Properties.java
@@ -99,31 +99,6 @@ public class Properties extends Hashtable {
   }
 
   private abstract static class Parser {
-    private StringBuilder key = null;
-    private StringBuilder value = null;
-    private StringBuilder current = null;
-
-    private void append(int c) {
-      if (current == null) {
-        if (key == null) {
-          current = key = new StringBuilder();
-        } else {
-          current = value = new StringBuilder();
-        }
-      }
-
-      current.append((char) c);
-    }
-
-    private void finishLine(Map<String, Object> map) {
-      if (key != null) {
-        map.put(key.toString(),
-                (value == null ? "" : value.toString().trim()));
-      }
-
-      key = value = current = null;
-    }
-
     abstract int readCharacter() throws IOException;
 
     char readUtf16() throws IOException {
@@ -137,85 +112,86 @@ public class Properties extends Hashtable {
       return c;
     }
 
+    private static boolean isSpace(int c) {
+      return c == ' ' || c == '\t' || c == '\f';
+    }
+
+    private static boolean isLineEnd(int c) {
+      return c == -1 || c == '\n' || c == '\r';
+    }
+
     void parse(Map map)
       throws IOException
     {
-      boolean escaped = false;
-
-      int c;
-      while ((c = readCharacter()) != -1) {
-        if (c == '\\') {
-          if (escaped) {
-            escaped = false;
-            append(c);
-          } else {
-            escaped = true;
+      int c = readCharacter();
+      while (c != -1) {
+        if (isSpace(c) || isLineEnd(c)) {
+          c = readCharacter();
+        } else if (c == '#' || c == '!') {
+          while (! isLineEnd(c)) {
+            c = readCharacter();
           }
         } else {
-          switch (c) {
-          case '#':
-          case '!':
-            if (key == null) {
-              while ((c = readCharacter()) != -1 && c != '\n');
-            } else {
-              append(c);
-            }
-            break;
-
-          case ' ':
-          case '\r':
-          case '\t':
-            if (escaped || (current != null && value == current)) {
-              append(c);
-            } else if (key == current) {
-              current = null;
-            }
-            break;
-
-          case ':':
-          case '=':
-            if (escaped || (current != null && value == current)) {
-              append(c);
-            } else {
-              if (key == null) {
-                key = new StringBuilder();
-              }
-              current = null;
-            }
-            break;
+          c = parseEntry(map, c);
+        }
+      }
+    }
 
-          case '\n':
-            if (escaped) {
-              append(c);
-            } else {
-              finishLine(map);          
+    // returns the character after the entry, which starts with c
+    private int parseEntry(Map map, int c)
+      throws IOException
+    {
+      StringBuilder key = new StringBuilder();
+      StringBuilder value = new StringBuilder();
+      StringBuilder current = key;
+      boolean separated = false;
+
+      while (! isLineEnd(c)) {
+        if (c == '\\') {
+          c = readCharacter();
+          if (isLineEnd(c)) {
+            // the line goes on after the white space which starts the next
+            int end = c;
+            c = readCharacter();
+            if (end == '\r' && c == '\n') {
+              c = readCharacter();
             }
-            break;
-          case 'n':
-            if (escaped) {
-              append('\n');
-            } else {
-              append(c);
+            while (isSpace(c)) {
+              c = readCharacter();
             }
-            break;
-
-          case 'u':
-            if (escaped) {
-              append(readUtf16());
-            } else {
-              append(c);
-            } break;
-
-          default:
-            append(c);
-            break;
+            continue;
           }
-        
-          escaped = false;
+
+          switch (c) {
+          case 'n': c = '\n'; break;
+          case 't': c = '\t'; break;
+          case 'r': c = '\r'; break;
+          case 'f': c = '\f'; break;
+          case 'u': c = readUtf16(); break;
+          }
+          if (current == null) {
+            current = value;
+          }
+          current.append((char) c);
+        } else if (current != value
+                   && (isSpace(c)
+                       || ((c == '=' || c == ':') && ! separated)))
+        {
+          separated |= ! isSpace(c);
+          current = null;
+        } else {
+          if (current == null) {
+            current = value;
+          }
+          current.append((char) c);
         }
+
+        c = readCharacter();
       }
 
-      finishLine(map);
+      map.put(key.toString(), value.toString());
+
+      return c;
     }
   }
   
-- 
2.43.0


From 7621c7361ec8fbde73958dcad1c5e11527a851ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 154/211] fix: Calendar took every fourth year for a leap year

---
 classpath/java/util/Calendar.java | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/Calendar.java b/classpath/java/util/Calendar.java
index 448f0f1..9195176 100644
--- a/classpath/java/util/Calendar.java
+++ b/classpath/java/util/Calendar.java
@@ -109,7 +109,7 @@ public abstract class Calendar {
     public Date getTime() {
       long days = fields[DAY_OF_MONTH] - 1;
       long years = fields[YEAR] - EPOCH_LEAP_YEAR;
-      days += years * 365 + years / 4 + 1 - DAYS_TO_EPOCH;
+      days += years * 365 + leapDays(years) + 1 - DAYS_TO_EPOCH;
       for (int month = 0; month < fields[MONTH]; month++) {
         days += DAYS_IN_MONTH[0][month];
       }
@@ -127,13 +127,25 @@ public abstract class Calendar {
       return (year%4 == 0) && (year%100 != 0) || (year%400 == 0);
     }
     
+    /* the leap years after EPOCH_LEAP_YEAR, up to and including the last */
+    private static long leapDays(long years) {
+      long year = EPOCH_LEAP_YEAR + years;
+      return (year / 4 - year / 100 + year / 400)
+        - (EPOCH_LEAP_YEAR / 4 - EPOCH_LEAP_YEAR / 100 + EPOCH_LEAP_YEAR / 400);
+    }
+
     private void parseIntoFields(long timeInMillis) {
       long days = timeInMillis / MILLIS_PER_DAY;
       /* convert days since Jan 1, 1970 to days since Jan 1, 1968 */
       days += DAYS_TO_EPOCH;
       long years = 4 * days / 1461; /* days/365.25 = 4*days/(4*365.25) */
+      /* century years are mostly not leap years, so this may be too early */
+      while (days >= 365 * (years + 1) + leapDays(years + 1)
+             + (isLeapYear((int)(EPOCH_LEAP_YEAR + years + 1)) ? 0 : 1)) {
+        years++;
+      }
       int year = (int)(EPOCH_LEAP_YEAR + years);
-      days -= 365 * years + years / 4;
+      days -= 365 * years + leapDays(years);
       if (!isLeapYear(year)) days--;
       
       int month=0;
-- 
2.43.0


From 1c65c119fda555b3e667883aa870bf7829d3ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 155/211] fix: FormatString refused flags or a precision
 without a width

---
 classpath/avian/FormatString.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/avian/FormatString.java b/classpath/avian/FormatString.java
index a66c3cf..4431995 100644
--- a/classpath/avian/FormatString.java
+++ b/classpath/avian/FormatString.java
@@ -966,7 +966,7 @@ public final class FormatString {
           return build();
         }
       }
-      throw new IllegalStateException();
+      return build();
     }
     private final void ensureLeftJustifySupported() {
       if (!widthSupported(_conversion)) {
-- 
2.43.0


From b6bafda829af1a1342d203b02aa9ddd4d367bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 156/211] fix: FormatString ignored a precision of zero, and
 the width where it truncated

---
 classpath/avian/FormatString.java | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/classpath/avian/FormatString.java b/classpath/avian/FormatString.java
index 4431995..12fbcbb 100644
--- a/classpath/avian/FormatString.java
+++ b/classpath/avian/FormatString.java
@@ -466,13 +466,11 @@ public final class FormatString {
     // (+) always include sign
     // (,) grouping separators
     // (() negatives in parentheses
-    if (precision > 0) {
+    if (precision >= 0) {
       // FIXME: this behavior should be different for floating point numbers
       final int difference = result.length() - precision;
       if (difference > 0) {
         result = result.substring(0, precision);
-        a.append(result);
-        return;
       }
     }
     if (width > 0) {
@@ -564,6 +562,7 @@ public final class FormatString {
       _precision      =
       _conversion     =
       _flags          = 0;
+      _precision      = -1;
       _source         = null;
     }
 
-- 
2.43.0


From ebea9ecb01fd791ec070a523ed5a9830bd539cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 157/211] fix: FormatString got negative longs in hexadecimal
 and octal wrong

---
 classpath/avian/FormatString.java | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/classpath/avian/FormatString.java b/classpath/avian/FormatString.java
index 12fbcbb..0feb1c5 100644
--- a/classpath/avian/FormatString.java
+++ b/classpath/avian/FormatString.java
@@ -384,7 +384,6 @@ public final class FormatString {
     appendify(a, val, flags, width, precision);
   }
 
-  // FIXME: this is broken for octal formats with negative values
   static void convertLong(
         final Appendable a,
         final Long arg, 
@@ -397,10 +396,10 @@ public final class FormatString {
     final long longValue = n.longValue();
     if (radix == 10 || longValue > -1) {
       val = Long.toString(longValue, radix);
+    } else if (radix == 8) {
+      val = Long.toOctalString(longValue);
     } else {
-      final long upper = 0xFFFFFFFFL&(longValue>>31);
-      final long lower = 0xFFFFFFFFL&(longValue);
-      val = Long.toString(upper, radix) + Long.toString(lower, radix);
+      val = Long.toHexString(longValue);
     }
     appendify(a, val, flags, width, precision);
   }
-- 
2.43.0


From d1fcff715b7ea0418d34252b24223c0e797e4809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 158/211] fix: FormatString padded negative numbers with zeros
 before the sign

---
 classpath/avian/FormatString.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/avian/FormatString.java b/classpath/avian/FormatString.java
index 0feb1c5..9d894cd 100644
--- a/classpath/avian/FormatString.java
+++ b/classpath/avian/FormatString.java
@@ -477,6 +477,10 @@ public final class FormatString {
       final boolean leftJustified = checkFlag(flags, FLAG_LEFT_JUSTIFIED);
       if (!leftJustified && difference > 0) {
         char fill = checkFlag(flags, FLAG_LEADING_ZERO_PADDED) ? '0' : ' ';
+        if (fill == '0' && result.startsWith("-")) {
+          a.append('-');
+          result = result.substring(1);
+        }
         fill(a, difference, fill);
       }
       a.append(result);
-- 
2.43.0


From c9ca595ff6e0c2a08ab8558feb69a3e98087afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 159/211] fix: StringTokenizer returned a delimiter for ever,
 and hasMoreTokens moved it on

---
 classpath/java/util/StringTokenizer.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/StringTokenizer.java b/classpath/java/util/StringTokenizer.java
index e2127fc..9944039 100644
--- a/classpath/java/util/StringTokenizer.java
+++ b/classpath/java/util/StringTokenizer.java
@@ -68,7 +68,6 @@ public class StringTokenizer implements Enumeration {
           return true;
         }
       } else {
-        position = i;
         return true;
       }
     }
@@ -79,6 +78,7 @@ public class StringTokenizer implements Enumeration {
     for (int i = position; i < in.length(); ++i) {
       if (isDelimiter(in.charAt(i))) {
         if (includeDelimiters) {
+          position = i + 1;
           return in.substring(i, i + 1);
         }
       } else {
@@ -89,6 +89,7 @@ public class StringTokenizer implements Enumeration {
         return in.substring(i, position);
       }
     }
+    position = in.length();
     throw new NoSuchElementException();
   }
 
-- 
2.43.0


From c014b048fea57e5735b0fc7fbefae8a8bbb9275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 160/211] fix: Arrays.equals of floats and doubles told equal
 NaNs apart and unequal zeros not

---
 classpath/java/util/Arrays.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/Arrays.java b/classpath/java/util/Arrays.java
index 1691e61..f0241b1 100644
--- a/classpath/java/util/Arrays.java
+++ b/classpath/java/util/Arrays.java
@@ -387,7 +387,7 @@ public class Arrays {
       return false;
     }
     for(int i = 0; i < a.length; i++) {
-      if(a[i] != b[i]) {
+      if(Float.floatToIntBits(a[i]) != Float.floatToIntBits(b[i])) {
         return false;
       }
     }
@@ -405,7 +405,7 @@ public class Arrays {
       return false;
     }
     for(int i = 0; i < a.length; i++) {
-      if(a[i] != b[i]) {
+      if(Double.doubleToLongBits(a[i]) != Double.doubleToLongBits(b[i])) {
         return false;
       }
     }
-- 
2.43.0


From 5e41a29071547a3b1350cc5c602673bc83849225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 161/211] fix: Calendar got times before 1970 wrong

---
 classpath/java/util/Calendar.java | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/classpath/java/util/Calendar.java b/classpath/java/util/Calendar.java
index 9195176..b5b2a2a 100644
--- a/classpath/java/util/Calendar.java
+++ b/classpath/java/util/Calendar.java
@@ -134,19 +134,30 @@ public abstract class Calendar {
         - (EPOCH_LEAP_YEAR / 4 - EPOCH_LEAP_YEAR / 100 + EPOCH_LEAP_YEAR / 400);
     }
 
+    private static long firstDay(long years) {
+      return 365 * years + leapDays(years)
+        + (isLeapYear((int)(EPOCH_LEAP_YEAR + years)) ? 0 : 1);
+    }
+
     private void parseIntoFields(long timeInMillis) {
       long days = timeInMillis / MILLIS_PER_DAY;
+      int remainder = (int)(timeInMillis % MILLIS_PER_DAY);
+      if (remainder < 0) {
+        days--;
+        remainder += MILLIS_PER_DAY;
+      }
       /* convert days since Jan 1, 1970 to days since Jan 1, 1968 */
       days += DAYS_TO_EPOCH;
       long years = 4 * days / 1461; /* days/365.25 = 4*days/(4*365.25) */
-      /* century years are mostly not leap years, so this may be too early */
-      while (days >= 365 * (years + 1) + leapDays(years + 1)
-             + (isLeapYear((int)(EPOCH_LEAP_YEAR + years + 1)) ? 0 : 1)) {
+      /* but century years are mostly not leap years */
+      while (days >= firstDay(years + 1)) {
         years++;
       }
+      while (days < firstDay(years)) {
+        years--;
+      }
       int year = (int)(EPOCH_LEAP_YEAR + years);
-      days -= 365 * years + leapDays(years);
-      if (!isLeapYear(year)) days--;
+      days -= firstDay(years);
       
       int month=0;
       int leapIndex = isLeapYear(year) ? 1 : 0;
@@ -155,7 +166,6 @@ public abstract class Calendar {
       }
       days++;
 
-      int remainder = (int)(timeInMillis % MILLIS_PER_DAY);
       int hour = remainder / MILLIS_PER_HOUR;
       remainder = remainder % MILLIS_PER_HOUR;
       int minute = remainder / MILLIS_PER_MINUTE;
-- 
2.43.0


From 280a0689220bd6823ab0aa9970bf76b3670b9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 162/211] fix: the clone of an array whose hash code had been
 taken got its header flags

---
 src/machine.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index f6c2332..6197319 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5529,9 +5529,11 @@ object clone(Thread* t, object o)
 
   if (class_->arrayElementSize()) {
     clone = static_cast<object>(allocate(t, size, class_->objectMask()));
-    memcpy(clone, o, size);
-    // clear any object header flags:
-    setObjectClass(t, o, objectClass(t, o));
+    // the clone has header flags of its own:
+    setObjectClass(t, clone, objectClass(t, o));
+    memcpy(reinterpret_cast<void**>(clone) + 1,
+           reinterpret_cast<void**>(o) + 1,
+           size - BytesPerWord);
   } else if (instanceOf(t, type(t, GcCloneable::Type), o)) {
     clone = make(t, class_);
     memcpy(reinterpret_cast<void**>(clone) + 1,
-- 
2.43.0


From 49cd5aa5f86b6d598f392dfcf2faea8db4c00e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 163/211] fix: a collection while a cast was checked left stale
 references behind

---
 src/compile.cpp   |  9 ++++++++-
 src/interpret.cpp |  2 ++
 src/machine.cpp   | 22 ++++++++++------------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 2275d9c..0eb6c57 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2839,7 +2839,14 @@ void NO_RETURN throw_(MyThread* t, GcThrowable* o)
 
 void checkCast(MyThread* t, GcClass* class_, object o)
 {
-  if (UNLIKELY(o and not isAssignableFrom(t, class_, objectClass(t, o)))) {
+  if (LIKELY(o == 0 or objectClass(t, o) == class_)) {
+    return;
+  }
+
+  PROTECT(t, class_);
+  PROTECT(t, o);
+
+  if (UNLIKELY(not isAssignableFrom(t, class_, objectClass(t, o)))) {
     GcByteArray* classNameFrom = objectClass(t, o)->name();
     GcByteArray* classNameTo = class_->name();
     THREAD_RUNTIME_ARRAY(t, char, classFrom, classNameFrom->length());
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 26eb676..2ea85f5 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1100,6 +1100,8 @@ loop:
       if (UNLIKELY(exception))
         goto throw_;
 
+      PROTECT(t, class_);
+
       if (not instanceOf(t, class_, peekObject(t, sp - 1))) {
         exception = makeThrowable(
             t,
diff --git a/src/machine.cpp b/src/machine.cpp
index 6197319..bd9e1d1 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4596,22 +4596,18 @@ bool isAssignableFrom(Thread* t, GcClass* a, GcClass* b)
   if (a == b)
     return true;
 
-  // a bootstrap class which has not been resolved yet (e.g. Cloneable)
-  // does not say whether it is an interface
-  if ((a->vmFlags() & BootstrapFlag) and b->arrayDimensions()) {
-    PROTECT(t, a);
-    PROTECT(t, b);
-
-    uintptr_t arguments[] = {reinterpret_cast<uintptr_t>(a->name())};
-
-    if (run(t, resolveBootstrap, arguments) == 0) {
-      t->exception = 0;
-      return false;
-    }
+  // all arrays implement these, which do not say that they are
+  // interfaces until they have been resolved
+  if (b->arrayDimensions() and (a == type(t, GcCloneable::Type)
+                                or a == type(t, GcSerializable::Type))) {
+    return true;
   }
 
   if (a->flags() & ACC_INTERFACE) {
     if (b->vmFlags() & BootstrapFlag) {
+      PROTECT(t, a);
+      PROTECT(t, b);
+
       uintptr_t arguments[] = {reinterpret_cast<uintptr_t>(b->name())};
 
       if (run(t, resolveBootstrap, arguments) == 0) {
@@ -5524,6 +5520,8 @@ object clone(Thread* t, object o)
   PROTECT(t, o);
 
   GcClass* class_ = objectClass(t, o);
+  PROTECT(t, class_);
+
   unsigned size = baseSize(t, o, class_) * BytesPerWord;
   object clone;
 
-- 
2.43.0


From bade0c9a914227a35ce9601a6001c3d2c8e9bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 164/211] fix: after a call compiled code could reload a
 reference from a popped stack slot the collector had not updated

---
 src/codegen/compiler/event.cpp | 48 ++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/codegen/compiler/event.cpp b/src/codegen/compiler/event.cpp
index 575bede..213fc60 100644
--- a/src/codegen/compiler/event.cpp
+++ b/src/codegen/compiler/event.cpp
@@ -1873,6 +1873,17 @@ void appendBranch(Context* c,
   }
 }
 
+bool hasFrameSite(Context* c, Value* v, int frameIndex)
+{
+  for (SiteIterator it(c, v, true, false); it.hasMore();) {
+    if (it.next()->match(
+            c, SiteMask(lir::Operand::MemoryMask, 0, frameIndex))) {
+      return true;
+    }
+  }
+  return false;
+}
+
 void clean(Context* c, Value* v, unsigned popIndex)
 {
   for (SiteIterator it(c, v); it.hasMore();) {
@@ -1897,6 +1908,22 @@ void clean(Context* c, Value* v, unsigned popIndex)
   }
 }
 
+bool isFrameHome(Context* c,
+                 Stack* stack,
+                 Local* locals,
+                 Value* v,
+                 int frameIndex)
+{
+  for (FrameIterator it(c, stack, locals); it.hasMore();) {
+    FrameIterator::Element e = it.next(c);
+    if ((e.value == v or e.value->isBuddyOf(v))
+        and e.frameIndex(c) == frameIndex) {
+      return true;
+    }
+  }
+  return false;
+}
+
 void clean(Context* c,
            Event* e,
            Stack* stack,
@@ -1907,6 +1934,27 @@ void clean(Context* c,
   for (FrameIterator it(c, stack, locals); it.hasMore();) {
     FrameIterator::Element e = it.next(c);
     clean(c, e.value, popIndex);
+
+    // A garbage collection during the call may have moved objects, in
+    // which case only those frame slots which are part of the logical
+    // frame have been updated.  Any copy left behind elsewhere (e.g. in
+    // a slot which has since been popped and is now the unused half of
+    // a double-word element) is not to be read again.
+    if (hasFrameSite(c, e.value, e.frameIndex(c))) {
+      for (SiteIterator sit(c, e.value, true, false); sit.hasMore();) {
+        Site* s = sit.next();
+        if (s->type(c) == lir::Operand::Type::Memory
+            and not isFrameHome(
+                    c,
+                    stack,
+                    locals,
+                    e.value,
+                    offsetToFrameIndex(c,
+                                       static_cast<MemorySite*>(s)->offset))) {
+          sit.remove(c);
+        }
+      }
+    }
   }
 
   for (Read* r = reads; r; r = r->eventNext) {
-- 
2.43.0


From 9b221184a02c810f235f8d2b4b2d450fbb10ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 165/211] fix: a reference taken from its queue still counted
 as enqueued

---
 classpath/java/lang/ref/ReferenceQueue.java | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/classpath/java/lang/ref/ReferenceQueue.java b/classpath/java/lang/ref/ReferenceQueue.java
index c5ccd6b..84970d6 100644
--- a/classpath/java/lang/ref/ReferenceQueue.java
+++ b/classpath/java/lang/ref/ReferenceQueue.java
@@ -13,19 +13,20 @@ package java.lang.ref;
 public class ReferenceQueue<T> {
   private Reference<? extends T> front;
 
-  public Reference<? extends T> poll() {
+  public synchronized Reference<? extends T> poll() {
     Reference<? extends T> r = front;
-    if (front != null) {
-      if (front == front.jNext) {
+    if (r != null) {
+      if (r == r.jNext) {
         front = null;
       } else {
-        front = front.jNext;
+        front = r.jNext;
       }
+      r.jNext = null;
     }
     return r;
   }
 
-  void add(Reference<? extends T> r) {
+  synchronized void add(Reference<? extends T> r) {
     if (front == null) {
       r.jNext = r;
     } else {
-- 
2.43.0


From de709d9b6a4862a578f17a3ff29b3185c47616a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 166/211] fix: references to objects with finalizers were never
 enqueued

---
 src/avian/machine.h |  1 +
 src/machine.cpp     | 44 ++++++++++++++++++++++++++++----------------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 46b3909..b124583 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -189,6 +189,7 @@ const unsigned LinkFlag = 1 << 8;
 const unsigned HasFinalMemberFlag = 1 << 9;
 const unsigned SingletonFlag = 1 << 10;
 const unsigned ContinuationFlag = 1 << 11;
+const unsigned PhantomReferenceFlag = 1 << 12;
 
 // method vmFlags:
 const unsigned ClassInitFlag = 1 << 0;
diff --git a/src/machine.cpp b/src/machine.cpp
index bd9e1d1..ddd9d20 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -479,10 +479,27 @@ bool isFinalizable(Thread* t, object o)
               & HasFinalizerFlag);
 }
 
-void clearTargetIfFinalizable(Thread* t, GcJreference* r)
+
+// Weak and soft references to objects which are about to be finalized
+// are cleared and enqueued before that makes the objects reachable
+// again.  Phantom references follow when finalization is done.
+void clearTargetsIfFinalizable(Thread* t, Heap::Visitor* v, GcJreference** p)
 {
-  if (isFinalizable(t, t->m->heap->follow(r->target()))) {
-    r->target() = 0;
+  while (*p) {
+    GcJreference* r = t->m->heap->follow(*p);
+
+    if ((t->m->heap->follow(objectClass(t, r))->vmFlags()
+         & PhantomReferenceFlag) == 0
+        and isFinalizable(t, t->m->heap->follow(r->target()))) {
+      if (t->m->heap->status(*p) == Heap::Unreachable) {
+        r->target() = 0;
+      } else {
+        referenceTargetUnreachable(t, v, p);
+        continue;
+      }
+    }
+
+    p = reinterpret_cast<GcJreference**>(&r->vmNext());
   }
 }
 
@@ -495,18 +512,10 @@ void postVisit(Thread* t, Heap::Visitor* v)
 
   m->heap->postVisit();
 
-  for (GcJreference* p = m->weakReferences; p;) {
-    GcJreference* r = m->heap->follow(p);
-    p = cast<GcJreference>(t, r->vmNext());
-    clearTargetIfFinalizable(t, r);
-  }
+  clearTargetsIfFinalizable(t, v, &(m->weakReferences));
 
   if (major) {
-    for (GcJreference* p = m->tenuredWeakReferences; p;) {
-      GcJreference* r = m->heap->follow(p);
-      p = cast<GcJreference>(t, r->vmNext());
-      clearTargetIfFinalizable(t, r);
-    }
+    clearTargetsIfFinalizable(t, v, &(m->tenuredWeakReferences));
   }
 
   for (Reference* r = m->jniReferences; r; r = r->next) {
@@ -3321,7 +3330,8 @@ void boot(Thread* t)
   type(t, GcSoftReference::Type)->vmFlags() |= ReferenceFlag
                                                | WeakReferenceFlag;
   type(t, GcPhantomReference::Type)->vmFlags() |= ReferenceFlag
-                                                  | WeakReferenceFlag;
+                                                  | WeakReferenceFlag
+                                                  | PhantomReferenceFlag;
 
   type(t, GcJboolean::Type)->vmFlags() |= PrimitiveFlag;
   type(t, GcJbyte::Type)->vmFlags() |= PrimitiveFlag;
@@ -4822,8 +4832,10 @@ GcClass* parseClass(Thread* t,
 
     class_->setSuper(t, sc);
 
-    class_->vmFlags() |= (sc->vmFlags() & (ReferenceFlag | WeakReferenceFlag
-                                           | HasFinalizerFlag | NeedInitFlag));
+    class_->vmFlags() |= (sc->vmFlags()
+                          & (ReferenceFlag | WeakReferenceFlag
+                             | PhantomReferenceFlag | HasFinalizerFlag
+                             | NeedInitFlag));
   }
 
   if (DebugClassReader) {
-- 
2.43.0


From 850b9e16d6c4a55ec78eb93c5ff7b9e8940fb20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 167/211] fix: references which are unreachable themselves were
 enqueued, even if their targets were still in use

---
 src/machine.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index ddd9d20..5b0b283 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -439,7 +439,7 @@ void referenceTargetUnreachable(Thread* t, Heap::Visitor* v, GcJreference** p)
   }
 }
 
-void referenceUnreachable(Thread* t, Heap::Visitor* v, GcJreference** p)
+void referenceUnreachable(Thread* t, GcJreference** p)
 {
   GcJreference* r = t->m->heap->follow(*p);
 
@@ -447,12 +447,9 @@ void referenceUnreachable(Thread* t, Heap::Visitor* v, GcJreference** p)
     fprintf(stderr, "reference %p unreachable (target %p)\n", *p, r->target());
   }
 
-  if (r->queue() and t->m->heap->status(r->queue()) != Heap::Unreachable) {
-    // queue is reachable - add the reference
-    referenceTargetUnreachable(t, v, p);
-  } else {
-    *p = cast<GcJreference>(t, (*p)->vmNext());
-  }
+  // a reference which is itself unreachable is never enqueued, whatever
+  // becomes of its target
+  *p = cast<GcJreference>(t, r->vmNext());
 }
 
 void referenceTargetReachable(Thread* t, Heap::Visitor* v, GcJreference** p)
@@ -578,7 +575,7 @@ void postVisit(Thread* t, Heap::Visitor* v)
   for (GcJreference** p = &(m->weakReferences); *p;) {
     if (m->heap->status(*p) == Heap::Unreachable) {
       // reference is unreachable
-      referenceUnreachable(t, v, p);
+      referenceUnreachable(t, p);
     } else if (m->heap->status(m->heap->follow(*p)->target())
                == Heap::Unreachable) {
       // target is unreachable
@@ -638,7 +635,7 @@ void postVisit(Thread* t, Heap::Visitor* v)
     for (GcJreference** p = &(m->tenuredWeakReferences); *p;) {
       if (m->heap->status(*p) == Heap::Unreachable) {
         // reference is unreachable
-        referenceUnreachable(t, v, reinterpret_cast<GcJreference**>(p));
+        referenceUnreachable(t, p);
       } else if (m->heap->status(m->heap->follow(*p)->target())
                  == Heap::Unreachable) {
         // target is unreachable
-- 
2.43.0


From 0bda2b79a968ff002b1a2df1083e7137a6e76698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 168/211] fix: WeakHashMap showed entries whose keys were
 collected

---
 classpath/java/util/WeakHashMap.java | 76 ++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 3 deletions(-)

diff --git a/classpath/java/util/WeakHashMap.java b/classpath/java/util/WeakHashMap.java
index 6cdd19f..4938522 100644
--- a/classpath/java/util/WeakHashMap.java
+++ b/classpath/java/util/WeakHashMap.java
@@ -14,6 +14,8 @@ import java.lang.ref.ReferenceQueue;
 import java.lang.ref.Reference;
 import java.lang.ref.WeakReference;
 
+import avian.Data;
+
 public class WeakHashMap<K, V> implements Map<K, V> {
   private final HashMap<K, V> map;
   private final ReferenceQueue queue;
@@ -37,10 +39,12 @@ public class WeakHashMap<K, V> implements Map<K, V> {
   }
 
   public boolean isEmpty() {
+    poll();
     return map.isEmpty();
   }
 
   public int size() {
+    poll();
     return map.size();
   }
 
@@ -78,15 +82,79 @@ public class WeakHashMap<K, V> implements Map<K, V> {
   }
 
   public Set<Entry<K, V>> entrySet() {
-    return map.entrySet();
+    return new Data.EntrySet(new MyEntryMap());
   }
 
   public Set<K> keySet() {
-    return map.keySet();
+    return new Data.KeySet(new MyEntryMap());
   }
 
   public Collection<V> values() {
-    return map.values();
+    return new Data.Values(new MyEntryMap());
+  }
+
+  private class MyEntryMap implements Data.EntryMap<K, V> {
+    public int size() {
+      return WeakHashMap.this.size();
+    }
+
+    public void clear() {
+      WeakHashMap.this.clear();
+    }
+
+    public Entry<K,V> find(Object key) {
+      poll();
+      return map.find(key);
+    }
+
+    public Entry<K,V> remove(Object key) {
+      poll();
+      return map.removeCell(key);
+    }
+
+    public Iterator<Entry<K, V>> iterator() {
+      poll();
+      return new MyIterator();
+    }
+  }
+
+  /** iterates over the entries whose keys are still there, which the
+   * iterator itself keeps reachable from now on */
+  private class MyIterator implements Iterator<Entry<K, V>> {
+    private final ArrayList<Entry<K, V>> cells = new ArrayList();
+    private final ArrayList<K> keys = new ArrayList();
+    private int index;
+    private boolean removable;
+
+    public MyIterator() {
+      for (Entry<K, V> e: map.entrySet()) {
+        K key = e.getKey();
+        if (key != null || ((MyCell<K, V>) e).nullKey) {
+          cells.add(e);
+          keys.add(key);
+        }
+      }
+    }
+
+    public boolean hasNext() {
+      return index < cells.size();
+    }
+
+    public Entry<K, V> next() {
+      if (! hasNext()) {
+        throw new NoSuchElementException();
+      }
+      removable = true;
+      return cells.get(index++);
+    }
+
+    public void remove() {
+      if (! removable) {
+        throw new IllegalStateException();
+      }
+      removable = false;
+      map.removeCell(keys.get(index - 1));
+    }
   }
 
   private static class MyCell<K, V>
@@ -96,11 +164,13 @@ public class WeakHashMap<K, V> implements Map<K, V> {
     public V value;
     public HashMap.Cell<K, V> next;
     public int hashCode;
+    public final boolean nullKey;
 
     public MyCell(K key, ReferenceQueue queue, V value,
                   HashMap.Cell<K, V> next, int hashCode)
     {
       super(key, queue);
+      this.nullKey = key == null;
       this.value = value;
       this.next = next;
       this.hashCode = hashCode;
-- 
2.43.0


From 2c774aa722adf6a165b3f39481ee5c8b01833069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 169/211] fix: WeakHashMap lost other entries when it dropped
 the entry of a collected key

---
 classpath/java/util/HashMap.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/classpath/java/util/HashMap.java b/classpath/java/util/HashMap.java
index c86f1dd..26bbb6b 100644
--- a/classpath/java/util/HashMap.java
+++ b/classpath/java/util/HashMap.java
@@ -125,6 +125,7 @@ public class HashMap<K, V> implements Map<K, V> {
         -- size;
         break;
       }
+      p = c;
     }
 
     shrink();
-- 
2.43.0


From 33e564b9d59183baeae7cb78d61d322562d41278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 170/211] fix: JNI functions for regions of arrays and strings
 did not check the bounds

---
 src/jnienv.cpp | 94 +++++++++++++++++++++++++++++++++++++++++---------
 src/types.def  |  2 ++
 2 files changed, 80 insertions(+), 16 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 82eb3d3..b664757 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -161,11 +161,43 @@ void JNICALL ReleaseStringChars(Thread* t, jstring s, const jchar* chars)
   t->m->heap->free(chars, ((*s)->length(t) + 1) * sizeof(jchar));
 }
 
+uint64_t throwOutOfBounds(Thread* t, uintptr_t* arguments)
+{
+  throwNew(t,
+           static_cast<Gc::Type>(arguments[0]),
+           "offset %d, length %d, size %d",
+           static_cast<int>(arguments[1]),
+           static_cast<int>(arguments[2]),
+           static_cast<int>(arguments[3]));
+}
+
+// whether a region lies within an array or string; if not, the exception
+// is pending afterwards
+bool inBounds(Thread* t, Gc::Type type, jsize offset, jsize length, jsize size)
+{
+  if (offset >= 0 and length >= 0 and offset <= size
+      and length <= size - offset) {
+    return true;
+  } else {
+    uintptr_t arguments[] = {static_cast<uintptr_t>(type),
+                             static_cast<uintptr_t>(offset),
+                             static_cast<uintptr_t>(length),
+                             static_cast<uintptr_t>(size)};
+
+    run(t, throwOutOfBounds, arguments);
+    return false;
+  }
+}
+
 void JNICALL
     GetStringRegion(Thread* t, jstring s, jsize start, jsize length, jchar* dst)
 {
   ENTER(t, Thread::ActiveState);
 
+  if (not inBounds(t, GcStringIndexOutOfBoundsException::Type, start, length, (*s)->length(t))) {
+    return;
+  }
+
   stringChars(t, *s, start, length, dst);
 }
 
@@ -235,6 +267,10 @@ void JNICALL GetStringUTFRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
+  if (not inBounds(t, GcStringIndexOutOfBoundsException::Type, start, length, (*s)->length(t))) {
+    return;
+  }
+
   stringUTFChars(
       t, *s, start, length, dst, stringUTFLength(t, *s, start, length));
 }
@@ -2362,6 +2398,11 @@ jobject JNICALL
 {
   ENTER(t, Thread::ActiveState);
 
+  if (not inBounds(
+          t, GcArrayIndexOutOfBoundsException::Type, index, 1, objectArrayLength(t, reinterpret_cast<object>(*array)))) {
+    return 0;
+  }
+
   return makeLocalReference(
       t, objectArrayBody(t, reinterpret_cast<object>(*array), index));
 }
@@ -2373,6 +2414,11 @@ void JNICALL SetObjectArrayElement(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
+  if (not inBounds(
+          t, GcArrayIndexOutOfBoundsException::Type, index, 1, objectArrayLength(t, reinterpret_cast<object>(*array)))) {
+    return;
+  }
+
   setField(t,
            reinterpret_cast<object>(*array),
            ArrayBody + (index * BytesPerWord),
@@ -2770,7 +2816,8 @@ void JNICALL GetBooleanArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jboolean));
   }
 }
@@ -2783,7 +2830,8 @@ void JNICALL GetByteArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jbyte));
   }
 }
@@ -2796,7 +2844,8 @@ void JNICALL GetCharArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jchar));
   }
 }
@@ -2809,7 +2858,8 @@ void JNICALL GetShortArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jshort));
   }
 }
@@ -2822,7 +2872,8 @@ void JNICALL GetIntArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jint));
   }
 }
@@ -2835,7 +2886,8 @@ void JNICALL GetLongArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jlong));
   }
 }
@@ -2848,7 +2900,8 @@ void JNICALL GetFloatArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jfloat));
   }
 }
@@ -2861,7 +2914,8 @@ void JNICALL GetDoubleArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jdouble));
   }
 }
@@ -2874,7 +2928,8 @@ void JNICALL SetBooleanArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jboolean));
   }
 }
@@ -2887,7 +2942,8 @@ void JNICALL SetByteArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jbyte));
   }
 }
@@ -2900,7 +2956,8 @@ void JNICALL SetCharArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jchar));
   }
 }
@@ -2913,7 +2970,8 @@ void JNICALL SetShortArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jshort));
   }
 }
@@ -2926,7 +2984,8 @@ void JNICALL SetIntArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jint));
   }
 }
@@ -2939,7 +2998,8 @@ void JNICALL SetLongArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jlong));
   }
 }
@@ -2952,7 +3012,8 @@ void JNICALL SetFloatArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jfloat));
   }
 }
@@ -2965,7 +3026,8 @@ void JNICALL SetDoubleArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inBounds(t, GcArrayIndexOutOfBoundsException::Type, offset, length, (*array)->length())
+      and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jdouble));
   }
 }
diff --git a/src/types.def b/src/types.def
index b17dd1d..ae79e1a 100644
--- a/src/types.def
+++ b/src/types.def
@@ -220,6 +220,8 @@
 
 (type arrayIndexOutOfBoundsException java/lang/ArrayIndexOutOfBoundsException)
 
+(type stringIndexOutOfBoundsException java/lang/StringIndexOutOfBoundsException)
+
 (type arrayStoreException java/lang/ArrayStoreException)
 
 (type negativeArraySizeException java/lang/NegativeArraySizeException)
-- 
2.43.0


From a9311860f7f98f3f421225debd56fbabb5fa71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 171/211] fix: JNI IsInstanceOf crashed on null

---
 src/jnienv.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index b664757..fe4d301 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -507,7 +507,8 @@ uint64_t isInstanceOf(Thread* t, uintptr_t* arguments)
   jobject o = reinterpret_cast<jobject>(arguments[0]);
   jclass c = reinterpret_cast<jclass>(arguments[1]);
 
-  return instanceOf(t, (*c)->vmClass(), *o);
+  // a null reference can be cast to any class
+  return o == 0 or *o == 0 or instanceOf(t, (*c)->vmClass(), *o);
 }
 
 jboolean JNICALL IsInstanceOf(Thread* t, jobject o, jclass c)
-- 
2.43.0


From c796380d1d4edfc7a2de8574a270f58c1170b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 172/211] fix: JNI IsSameObject told a cleared weak reference
 from null

---
 src/jnienv.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index fe4d301..2402801 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -3235,13 +3235,10 @@ jint JNICALL GetJavaVM(Thread* t, Machine** m)
 
 jboolean JNICALL IsSameObject(Thread* t, jobject a, jobject b)
 {
-  if (a and b) {
-    ENTER(t, Thread::ActiveState);
+  // a weak reference whose target was collected is the same as null
+  ENTER(t, Thread::ActiveState);
 
-    return *a == *b;
-  } else {
-    return a == b;
-  }
+  return (a ? *a : 0) == (b ? *b : 0);
 }
 
 uint64_t pushLocalFrame(Thread* t, uintptr_t* arguments)
-- 
2.43.0


From 5acc6878adb37afb70dc21d25668d34065ac5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 173/211] fix: JNI access to a static field looked in the given
 class instead of the one which declares it

---
 src/jnienv.cpp | 162 ++++++++++++++++++++++---------------------------
 1 file changed, 72 insertions(+), 90 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 2402801..9da9e16 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -1870,17 +1870,16 @@ GcField* getStaticField(Thread* t, jfieldID f)
 
 uint64_t getStaticObjectField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return reinterpret_cast<uintptr_t>(makeLocalReference(
-      t, fieldAtOffset<object>(c->vmClass()->staticTable(), field->offset())));
+      t, fieldAtOffset<object>(field->class_()->staticTable(), field->offset())));
 }
 
 jobject JNICALL GetStaticObjectField(Thread* t, jclass c, jfieldID field)
@@ -1892,16 +1891,15 @@ jobject JNICALL GetStaticObjectField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticBooleanField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jboolean>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jboolean>(field->class_()->staticTable(), field->offset());
 }
 
 jboolean JNICALL GetStaticBooleanField(Thread* t, jclass c, jfieldID field)
@@ -1913,16 +1911,15 @@ jboolean JNICALL GetStaticBooleanField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticByteField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jbyte>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jbyte>(field->class_()->staticTable(), field->offset());
 }
 
 jbyte JNICALL GetStaticByteField(Thread* t, jclass c, jfieldID field)
@@ -1934,16 +1931,15 @@ jbyte JNICALL GetStaticByteField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticCharField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jchar>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jchar>(field->class_()->staticTable(), field->offset());
 }
 
 jchar JNICALL GetStaticCharField(Thread* t, jclass c, jfieldID field)
@@ -1955,16 +1951,15 @@ jchar JNICALL GetStaticCharField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticShortField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jshort>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jshort>(field->class_()->staticTable(), field->offset());
 }
 
 jshort JNICALL GetStaticShortField(Thread* t, jclass c, jfieldID field)
@@ -1976,16 +1971,15 @@ jshort JNICALL GetStaticShortField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticIntField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jint>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jint>(field->class_()->staticTable(), field->offset());
 }
 
 jint JNICALL GetStaticIntField(Thread* t, jclass c, jfieldID field)
@@ -1997,16 +1991,15 @@ jint JNICALL GetStaticIntField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticLongField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jlong>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jlong>(field->class_()->staticTable(), field->offset());
 }
 
 jlong JNICALL GetStaticLongField(Thread* t, jclass c, jfieldID field)
@@ -2018,17 +2011,16 @@ jlong JNICALL GetStaticLongField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticFloatField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return floatToBits(
-      fieldAtOffset<jfloat>(c->vmClass()->staticTable(), field->offset()));
+      fieldAtOffset<jfloat>(field->class_()->staticTable(), field->offset()));
 }
 
 jfloat JNICALL GetStaticFloatField(Thread* t, jclass c, jfieldID field)
@@ -2040,17 +2032,16 @@ jfloat JNICALL GetStaticFloatField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticDoubleField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return doubleToBits(
-      fieldAtOffset<jdouble>(c->vmClass()->staticTable(), field->offset()));
+      fieldAtOffset<jdouble>(field->class_()->staticTable(), field->offset()));
 }
 
 jdouble JNICALL GetStaticDoubleField(Thread* t, jclass c, jfieldID field)
@@ -2062,17 +2053,16 @@ jdouble JNICALL GetStaticDoubleField(Thread* t, jclass c, jfieldID field)
 
 uint64_t setStaticObjectField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jobject v = reinterpret_cast<jobject>(arguments[2]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  setField(t, c->vmClass()->staticTable(), field->offset(), (v ? *v : 0));
+  setField(t, field->class_()->staticTable(), field->offset(), (v ? *v : 0));
 
   return 1;
 }
@@ -2088,17 +2078,16 @@ void JNICALL
 
 uint64_t setStaticBooleanField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jboolean v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jboolean>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jboolean>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2113,17 +2102,16 @@ void JNICALL
 
 uint64_t setStaticByteField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jbyte v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jbyte>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jbyte>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2138,17 +2126,16 @@ void JNICALL SetStaticByteField(Thread* t, jclass c, jfieldID field, jbyte v)
 
 uint64_t setStaticCharField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jchar v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jchar>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jchar>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2162,17 +2149,16 @@ void JNICALL SetStaticCharField(Thread* t, jclass c, jfieldID field, jchar v)
 
 uint64_t setStaticShortField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jshort v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jshort>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jshort>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2187,17 +2173,16 @@ void JNICALL SetStaticShortField(Thread* t, jclass c, jfieldID field, jshort v)
 
 uint64_t setStaticIntField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jint v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jint>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jint>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2212,18 +2197,17 @@ void JNICALL SetStaticIntField(Thread* t, jclass c, jfieldID field, jint v)
 
 uint64_t setStaticLongField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jlong v;
   memcpy(&v, arguments + 2, sizeof(jlong));
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jlong>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jlong>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2240,17 +2224,16 @@ void JNICALL SetStaticLongField(Thread* t, jclass c, jfieldID field, jlong v)
 
 uint64_t setStaticFloatField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jfloat v = bitsToFloat(arguments[2]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jfloat>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jfloat>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2265,18 +2248,17 @@ void JNICALL SetStaticFloatField(Thread* t, jclass c, jfieldID field, jfloat v)
 
 uint64_t setStaticDoubleField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jdouble v;
   memcpy(&v, arguments + 2, sizeof(jdouble));
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jdouble>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jdouble>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
-- 
2.43.0


From 98e251329893f20d1abdb094ca9b9ef91fb3db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 174/211] fix: JNI lookups of methods and fields did not tell
 static and instance members apart

---
 src/jnienv.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 9da9e16..089a921 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -577,7 +577,9 @@ uint64_t getMethodID(Thread* t, uintptr_t* arguments)
 
   GcMethod* method = findMethod(t, c, name, spec);
 
-  assertT(t, (method->flags() & ACC_STATIC) == 0);
+  if (method->flags() & ACC_STATIC) {
+    throwNew(t, GcNoSuchMethodError::Type, "%s%s is static", name, spec);
+  }
 
   return methodID(t, method);
 }
@@ -600,7 +602,9 @@ uint64_t getStaticMethodID(Thread* t, uintptr_t* arguments)
 
   GcMethod* method = findMethod(t, c, name, spec);
 
-  assertT(t, method->flags() & ACC_STATIC);
+  if ((method->flags() & ACC_STATIC) == 0) {
+    throwNew(t, GcNoSuchMethodError::Type, "%s%s is not static", name, spec);
+  }
 
   return methodID(t, method);
 }
@@ -1458,7 +1462,28 @@ uint64_t getFieldID(Thread* t, uintptr_t* arguments)
   const char* name = reinterpret_cast<const char*>(arguments[1]);
   const char* spec = reinterpret_cast<const char*>(arguments[2]);
 
-  return fieldID(t, resolveField(t, (*c)->vmClass(), name, spec));
+  GcField* field = resolveField(t, (*c)->vmClass(), name, spec);
+
+  if (field->flags() & ACC_STATIC) {
+    throwNew(t, GcNoSuchFieldError::Type, "%s is static", name);
+  }
+
+  return fieldID(t, field);
+}
+
+uint64_t getStaticFieldID(Thread* t, uintptr_t* arguments)
+{
+  jclass c = reinterpret_cast<jclass>(arguments[0]);
+  const char* name = reinterpret_cast<const char*>(arguments[1]);
+  const char* spec = reinterpret_cast<const char*>(arguments[2]);
+
+  GcField* field = resolveField(t, (*c)->vmClass(), name, spec);
+
+  if ((field->flags() & ACC_STATIC) == 0) {
+    throwNew(t, GcNoSuchFieldError::Type, "%s is not static", name);
+  }
+
+  return fieldID(t, field);
 }
 
 jfieldID JNICALL
@@ -1478,7 +1503,7 @@ jfieldID JNICALL
                            reinterpret_cast<uintptr_t>(name),
                            reinterpret_cast<uintptr_t>(spec)};
 
-  return run(t, getFieldID, arguments);
+  return run(t, getStaticFieldID, arguments);
 }
 
 GcField* getField(Thread* t, jfieldID f)
-- 
2.43.0


From 397fa3e343fa3c3d9c8a6ae5a7f59d7e3ae8020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 175/211] fix: JNI MonitorExit aborted on a monitor which the
 thread does not own

---
 src/jnienv.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 089a921..4df5887 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -3223,7 +3223,13 @@ jint JNICALL MonitorEnter(Thread* t, jobject o)
 
 void release0(Thread* t, object o)
 {
-  return release(t, o);
+  GcMonitor* m = objectMonitor(t, o, false);
+
+  if (m and m->owner() == t) {
+    release(t, o);
+  } else {
+    throwNew(t, GcIllegalMonitorStateException::Type);
+  }
 }
 
 jint JNICALL MonitorExit(Thread* t, jobject o)
-- 
2.43.0


From 55686ebffaa7ecca1829cfb9382ca9f6bf1642cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 176/211] fix: JNI GetStringRegion wrote a character past the
 region

---
 src/jnienv.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 4df5887..132496b 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -198,7 +198,10 @@ void JNICALL
     return;
   }
 
-  stringChars(t, *s, start, length, dst);
+  // unlike stringChars, this must not write a terminator past the region
+  for (jsize i = 0; i < length; ++i) {
+    dst[i] = stringCharAt(t, *s, start + i);
+  }
 }
 
 const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
-- 
2.43.0


From 78558faaa1162b3e5dbbf375edf084cc7ab84911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 177/211] fix: JNI calls with arrays of arguments read all 32
 bits of narrower arguments

---
 src/compile.cpp   | 16 ++++++++++++++++
 src/interpret.cpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 0eb6c57..453b471 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -8452,6 +8452,22 @@ class ArgumentList {
         addInt(floatToBits(arguments[index++].f));
         break;
 
+      case 'Z':
+        addInt(arguments[index++].z);
+        break;
+
+      case 'B':
+        addInt(arguments[index++].b);
+        break;
+
+      case 'C':
+        addInt(arguments[index++].c);
+        break;
+
+      case 'S':
+        addInt(arguments[index++].s);
+        break;
+
       default:
         addInt(arguments[index++].i);
         break;
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 2ea85f5..922c586 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3122,6 +3122,22 @@ void pushArguments(Thread* t,
       pushFloat(t, arguments[index++].f);
     } break;
 
+    case 'Z':
+      pushInt(t, arguments[index++].z);
+      break;
+
+    case 'B':
+      pushInt(t, arguments[index++].b);
+      break;
+
+    case 'C':
+      pushInt(t, arguments[index++].c);
+      break;
+
+    case 'S':
+      pushInt(t, arguments[index++].s);
+      break;
+
     default:
       pushInt(t, arguments[index++].i);
       break;
-- 
2.43.0


From 2e0c0a34d6f45c7fd631a3f4ecc08ee7fc8f87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 178/211] fix: a class loader let a class be defined twice

---
 src/machine.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/machine.cpp b/src/machine.cpp
index 5b0b283..5c1e64d 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5979,6 +5979,13 @@ GcClass* defineClass(Thread* t,
 
   PROTECT(t, c);
 
+  if (findLoadedClass(t, loader, c->name())) {
+    throwNew(t,
+             GcLinkageError::Type,
+             "duplicate class definition: %s",
+             c->name()->body().begin());
+  }
+
   saveLoadedClass(t, loader, c);
 
   return c;
-- 
2.43.0


From e43e61fe06cf6eb3dd6db2855e9d58666e5df397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 179/211] fix: the interpreter took double arguments of JNI
 calls from the wrong place

---
 src/interpret.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 922c586..b962039 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3080,10 +3080,13 @@ void pushArguments(Thread* t,
       break;
 
     case 'J':
-    case 'D':
       pushLong(t, va_arg(a, uint64_t));
       break;
 
+    case 'D':
+      pushDouble(t, va_arg(a, double));
+      break;
+
     case 'F': {
       pushFloat(t, va_arg(a, double));
     } break;
-- 
2.43.0


From 06ca6ca400372cbf22ddf5b0fd99402bcb3cfd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 180/211] fix: critical sections on strings could collect when
 stress testing

---
 src/jnienv.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 132496b..d68b07b 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -218,7 +218,11 @@ const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
 
   object data = (*s)->data();
   if (objectClass(t, data) == type(t, GcByteArray::Type)) {
-    return GetStringChars(t, s, isCopy);
+    // not GetStringChars, which may collect when stress testing
+    jchar* chars = static_cast<jchar*>(
+        t->m->heap->allocate(((*s)->length(t) + 1) * sizeof(jchar)));
+    stringChars(t, *s, chars);
+    return chars;
   } else {
     return &cast<GcCharArray>(t, data)->body()[(*s)->offset(t)];
   }
@@ -227,7 +231,7 @@ const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
 void JNICALL ReleaseStringCritical(Thread* t, jstring s, const jchar* chars)
 {
   if (objectClass(t, (*s)->data()) == type(t, GcByteArray::Type)) {
-    ReleaseStringChars(t, s, chars);
+    t->m->heap->free(chars, ((*s)->length(t) + 1) * sizeof(jchar));
   }
 
   if ((--t->criticalLevel) == 0) {
-- 
2.43.0


From 6f51fddd16425003f84f8093ebd3bf92fe90a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:03 +0000
Subject: [PATCH 181/211] fix: JNI functions for the characters of strings
 aborted on empty strings

---
 src/jnienv.cpp  | 5 +++--
 src/machine.cpp | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index d68b07b..f35f973 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -217,7 +217,7 @@ const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
   }
 
   object data = (*s)->data();
-  if (objectClass(t, data) == type(t, GcByteArray::Type)) {
+  if ((*s)->length(t) == 0 or objectClass(t, data) == type(t, GcByteArray::Type)) {
     // not GetStringChars, which may collect when stress testing
     jchar* chars = static_cast<jchar*>(
         t->m->heap->allocate(((*s)->length(t) + 1) * sizeof(jchar)));
@@ -230,7 +230,8 @@ const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
 
 void JNICALL ReleaseStringCritical(Thread* t, jstring s, const jchar* chars)
 {
-  if (objectClass(t, (*s)->data()) == type(t, GcByteArray::Type)) {
+  object data = (*s)->data();
+  if ((*s)->length(t) == 0 or objectClass(t, data) == type(t, GcByteArray::Type)) {
     t->m->heap->free(chars, ((*s)->length(t) + 1) * sizeof(jchar));
   }
 
diff --git a/src/machine.cpp b/src/machine.cpp
index 5c1e64d..51a03a7 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4558,6 +4558,11 @@ void stringUTFChars(Thread* t,
           static_cast<unsigned>(stringUTFLength(t, string, start, length))
           == charsLength);
 
+  if (length == 0) {
+    chars[0] = 0;
+    return;
+  }
+
   object data = string->data();
   if (objectClass(t, data) == type(t, GcByteArray::Type)) {
     GcByteArray* b = cast<GcByteArray>(t, data);
-- 
2.43.0


From 6914e9de110627481156327f27dfbda69dd2b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 182/211] fix: local frames which a native method did not pop
 were popped by its callers

---
 src/compile.cpp   | 8 ++++++++
 src/interpret.cpp | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 453b471..d7cbccc 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -7719,6 +7719,7 @@ uint64_t invokeNativeSlow(MyThread* t, GcMethod* method, void* function)
   }
 
   Reference* reference = t->reference;
+  List<Reference*>* referenceFrame = t->referenceFrame;
 
   {
     ENTER(t, Thread::IdleState);
@@ -7735,6 +7736,13 @@ uint64_t invokeNativeSlow(MyThread* t, GcMethod* method, void* function)
                              returnType);
   }
 
+  // discard local frames which the native method did not pop
+  while (t->referenceFrame != referenceFrame) {
+    List<Reference*>* f = t->referenceFrame;
+    t->referenceFrame = f->next;
+    t->m->heap->free(f, sizeof(List<Reference*>));
+  }
+
   if (method->flags() & ACC_SYNCHRONIZED) {
     if (method->flags() & ACC_STATIC) {
       release(t, getJClass(t, method->class_()));
diff --git a/src/interpret.cpp b/src/interpret.cpp
index b962039..7c89c6a 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -580,6 +580,8 @@ unsigned invokeNativeSlow(Thread* t, GcMethod* method, void* function)
             method->name()->body().begin());
   }
 
+  List<unsigned>* stackPointers = t->stackPointers;
+
   {
     ENTER(t, Thread::IdleState);
 
@@ -595,6 +597,13 @@ unsigned invokeNativeSlow(Thread* t, GcMethod* method, void* function)
                              returnType);
   }
 
+  // discard local frames which the native method did not pop
+  while (t->stackPointers != stackPointers) {
+    List<unsigned>* f = t->stackPointers;
+    t->stackPointers = f->next;
+    t->m->heap->free(f, sizeof(List<unsigned>));
+  }
+
   if (DebugRun) {
     fprintf(stderr,
             "return from native method %s.%s\n",
-- 
2.43.0


From bdd0096b3f64f3fb91812f0c9300a311dd532dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 183/211] fix: Class.getModifiers reported classes as
 synchronized

---
 classpath/java/lang/Class.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index 6597877..5437d3d 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -51,6 +51,8 @@ public final class Class <T>
   implements Type, AnnotatedElement, GenericDeclaration
 {
   private static final int PrimitiveFlag = 1 <<  5;
+  // has the same value as Modifier.SYNCHRONIZED
+  private static final int AccSuper = 0x20;
   private static final int EnumFlag      = 1 << 14;
 
   public final VMClass vmClass;
@@ -574,13 +576,13 @@ public final class Class <T>
         for (int i = 0; i < table.length; ++i) {
           InnerClassReference reference = table[i];
           if (Arrays.equals(vmClass.name, reference.inner)) {
-            return reference.flags;
+            return reference.flags & ~AccSuper;
           }
         }
       }
     }
 
-    return vmClass.flags;
+    return vmClass.flags & ~AccSuper;
   }
 
   public boolean isInterface() {
-- 
2.43.0


From faa94b30fdec03c66470d46b483a16781a6a293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 184/211] fix: a class could be found and defined twice by
 threads which load it at the same time

---
 classpath/java/lang/ClassLoader.java | 29 +++++++++++++++-------------
 src/machine.cpp                      |  2 ++
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/classpath/java/lang/ClassLoader.java b/classpath/java/lang/ClassLoader.java
index f34e64f..f237c6c 100644
--- a/classpath/java/lang/ClassLoader.java
+++ b/classpath/java/lang/ClassLoader.java
@@ -145,24 +145,27 @@ public abstract class ClassLoader {
   protected Class loadClass(String name, boolean resolve)
     throws ClassNotFoundException
   {
-    Class c = findLoadedClass(name);
-    if (c == null) {
-      if (parent != null) {
-        try {
-          c = parent.loadClass(name);
-        } catch (ClassNotFoundException ok) { }
+    // find and define the class at most once
+    synchronized (this) {
+      Class c = findLoadedClass(name);
+      if (c == null) {
+        if (parent != null) {
+          try {
+            c = parent.loadClass(name);
+          } catch (ClassNotFoundException ok) { }
+        }
+
+        if (c == null) {
+          c = findClass(name);
+        }
       }
 
-      if (c == null) {
-        c = findClass(name);
+      if (resolve) {
+        resolveClass(c);
       }
-    }
 
-    if (resolve) {
-      resolveClass(c);
+      return c;
     }
-
-    return c;
   }
 
   protected void resolveClass(Class c) {
diff --git a/src/machine.cpp b/src/machine.cpp
index 51a03a7..8d656f7 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5984,6 +5984,8 @@ GcClass* defineClass(Thread* t,
 
   PROTECT(t, c);
 
+  ACQUIRE(t, t->m->classLock);
+
   if (findLoadedClass(t, loader, c->name())) {
     throwNew(t,
              GcLinkageError::Type,
-- 
2.43.0


From 1d1bd872007dedee8893b1b4f21eaea5e2622c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 185/211] fix: fields of superinterfaces of an interface were
 not found, and JNI preferred them to the fields of a class

---
 src/machine.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 8d656f7..704b121 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -370,7 +370,9 @@ object findInInterfaces(
   object result = 0;
   if (GcArray* itable = cast<GcArray>(t, class_->interfaceTable())) {
     PROTECT(t, itable);
-    for (unsigned i = 0; i < itable->length() and result == 0; i += 2) {
+    // the interface table of a class has a method table after each entry
+    unsigned stride = (class_->flags() & ACC_INTERFACE) ? 1 : 2;
+    for (unsigned i = 0; i < itable->length() and result == 0; i += stride) {
       result = find(t, cast<GcClass>(t, itable->body()[i]), name, spec);
     }
   }
@@ -5168,14 +5170,7 @@ GcField* resolveField(Thread* t,
   PROTECT(t, spec);
 
   GcField* field = cast<GcField>(
-      t, findInInterfaces(t, class_, name, spec, findFieldInClass));
-
-  GcClass* c = class_;
-  PROTECT(t, c);
-
-  for (; c != 0 and field == 0; c = c->super()) {
-    field = cast<GcField>(t, findFieldInClass(t, c, name, spec));
-  }
+      t, findInHierarchyOrNull(t, class_, name, spec, findFieldInClass));
 
   if (field == 0) {
     throwNew(t,
-- 
2.43.0


From fb97dd29f2b516123b094dbe3b52d3d0764f7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 186/211] fix: class initialization which fails, is recursive
 or concurrent did not follow the rules of the JVM

---
 src/compile.cpp | 20 +++++++++++---
 src/machine.cpp | 72 ++++++++++++++++++++++++-------------------------
 2 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index d7cbccc..872887a 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -9744,7 +9744,11 @@ void* compileMethod2(MyThread* t, void* ip)
     address = methodAddress(t, target);
   }
 
-  if (updateCaller) {
+  // keep calling the thunk, which initializes the class of a static
+  // method, for as long as the class is not (or cannot be) initialized
+  if (updateCaller
+      and not((target->flags() & ACC_STATIC)
+              and classNeedsInit(t, target->class_()))) {
     avian::codegen::lir::UnaryOperation op;
     if (node->flags() & TraceElement::LongCall) {
       if (node->flags() & TraceElement::TailCall) {
@@ -10082,10 +10086,18 @@ void resetClassRuntimeState(Thread* t,
 
       m->nativeID() = 0;
       m->runtimeDataIndex() = 0;
+    }
+  }
 
-      if (m->vmFlags() & ClassInitFlag) {
-        c->vmFlags() |= NeedInitFlag;
-        c->vmFlags() &= ~InitErrorFlag;
+  // a class needs to be initialized if it or any of its superclasses
+  // has an initializer
+  for (GcClass* s = c; s; s = s->super()) {
+    if (GcArray* mtable = cast<GcArray>(t, s->methodTable())) {
+      for (unsigned i = 0; i < mtable->length(); ++i) {
+        if (cast<GcMethod>(t, mtable->body()[i])->vmFlags() & ClassInitFlag) {
+          c->vmFlags() |= NeedInitFlag;
+          c->vmFlags() &= ~InitErrorFlag;
+        }
       }
     }
   }
diff --git a/src/machine.cpp b/src/machine.cpp
index 704b121..184112c 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5184,24 +5184,12 @@ GcField* resolveField(Thread* t,
   }
 }
 
-bool classNeedsInit(Thread* t, GcClass* c)
-{
-  if (c->vmFlags() & NeedInitFlag) {
-    if (c->vmFlags() & InitFlag) {
-      // the class is currently being initialized.  If this the thread
-      // which is initializing it, we should not try to initialize it
-      // recursively.  Otherwise, we must wait for the responsible
-      // thread to finish.
-      for (Thread::ClassInitStack* s = t->classInitStack; s; s = s->next) {
-        if (s->class_ == c) {
-          return false;
-        }
-      }
-    }
-    return true;
-  } else {
-    return false;
-  }
+bool classNeedsInit(Thread*, GcClass* c)
+{
+  // this is also true while the current thread is initializing the
+  // class: the code compiled on its behalf outlives the initialization,
+  // and may be run by other threads or after the initialization failed
+  return (c->vmFlags() & NeedInitFlag) != 0;
 }
 
 bool preInitClass(Thread* t, GcClass* c)
@@ -5228,7 +5216,13 @@ bool preInitClass(Thread* t, GcClass* c)
           ENTER(t, Thread::IdleState);
           t->m->classLock->wait(t->systemThread, 0);
         }
-      } else if (c->vmFlags() & InitErrorFlag) {
+
+        if ((c->vmFlags() & NeedInitFlag) == 0) {
+          return false;
+        }
+      }
+
+      if (c->vmFlags() & InitErrorFlag) {
         throwNew(
             t, GcNoClassDefFoundError::Type, "%s", c->name()->body().begin());
       } else {
@@ -5245,44 +5239,50 @@ void postInitClass(Thread* t, GcClass* c)
   PROTECT(t, c);
   ACQUIRE(t, t->m->classLock);
 
-  if (t->exception
-      and instanceOf(t, type(t, GcException::Type), t->exception)) {
+  if (t->exception) {
     c->vmFlags() |= NeedInitFlag | InitErrorFlag;
     c->vmFlags() &= ~InitFlag;
+    t->m->classLock->notifyAll(t->systemThread);
+
+    if (not instanceOf(t, type(t, GcError::Type), t->exception)) {
+      GcThrowable* exception = t->exception;
+      t->exception = 0;
 
-    GcThrowable* exception = t->exception;
-    t->exception = 0;
+      PROTECT(t, exception);
 
-    GcExceptionInInitializerError* initExecption
-        = makeThrowable(t, GcExceptionInInitializerError::Type, 0, 0, exception)
-              ->as<GcExceptionInInitializerError>(t);
+      GcExceptionInInitializerError* initException
+          = makeThrowable(
+                t, GcExceptionInInitializerError::Type, 0, 0, exception)
+                ->as<GcExceptionInInitializerError>(t);
 
-    initExecption->setException(t, exception->cause());
+      initException->setException(t, exception);
 
-    throw_(t, initExecption->as<GcThrowable>(t));
+      throw_(t, initException->as<GcThrowable>(t));
+    }
   } else {
     c->vmFlags() &= ~(NeedInitFlag | InitFlag);
+    t->m->classLock->notifyAll(t->systemThread);
   }
-  t->m->classLock->notifyAll(t->systemThread);
 }
 
 void initClass(Thread* t, GcClass* c)
 {
   PROTECT(t, c);
 
-  GcClass* super = c->super();
-  if (super) {
-    initClass(t, super);
-  }
-
   if (preInitClass(t, c)) {
     OBJECT_RESOURCE(t, c, postInitClass(t, cast<GcClass>(t, c)));
 
+    // the superclass is initialized while this class is already marked as
+    // being initialized, so that its initializer may refer to this class
+    Thread::ClassInitStack stack(t, c);
+
+    if (c->super()) {
+      initClass(t, c->super());
+    }
+
     GcMethod* initializer = classInitializer(t, c);
 
     if (initializer) {
-      Thread::ClassInitStack stack(t, c);
-
       t->m->processor->invoke(t, initializer, 0);
     }
   }
-- 
2.43.0


From 84c01ea920be94d9ce1fa3d00acd457b0b7a4e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 187/211] fix: an ArrayDeque made with no capacity failed at
 the first element

---
 classpath/java/util/ArrayDeque.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/ArrayDeque.java b/classpath/java/util/ArrayDeque.java
index 0f1ce14..6dc770e 100644
--- a/classpath/java/util/ArrayDeque.java
+++ b/classpath/java/util/ArrayDeque.java
@@ -53,7 +53,7 @@ public class ArrayDeque<T> extends AbstractDeque<T>
       
       dataArray = newArray;
       startIndex = 0;
-      endIndex = size - 1;
+      endIndex = size == 0 ? 0 : size - 1;
     }
   }
 
-- 
2.43.0


From db613ad8ec43da71bc768a02b427b99e7bff3095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 188/211] fix: LineNumberReader.read looked for line breaks in
 the wrong part of the array

---
 classpath/java/io/LineNumberReader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/io/LineNumberReader.java b/classpath/java/io/LineNumberReader.java
index f5ee259..6fe6532 100644
--- a/classpath/java/io/LineNumberReader.java
+++ b/classpath/java/io/LineNumberReader.java
@@ -40,7 +40,7 @@ public class LineNumberReader extends BufferedReader {
   public int read(char[] b, int offset, int length) throws IOException {
     int c = super.read(b, offset, length);
     for (int i = 0; i < c; ++i) {
-      if (b[i] == '\n') {
+      if (b[offset + i] == '\n') {
         ++ line;
       }
     }
-- 
2.43.0


From 6b4c160aa4ab8a3a4040917bb3581646d41d6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 189/211] fix: Class.getModifiers under OpenJDK's class library
 reported ACC_SUPER as synchronized

---
 src/classpath-openjdk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/classpath-openjdk.cpp b/src/classpath-openjdk.cpp
index a2d6c62..66015e6 100644
--- a/src/classpath-openjdk.cpp
+++ b/src/classpath-openjdk.cpp
@@ -4719,9 +4719,11 @@ extern "C" AVIAN_EXPORT jclass JNICALL
 
 uint64_t jvmGetClassModifiers(Thread* t, uintptr_t* arguments)
 {
+  // ACC_SUPER is not a modifier of the class
   return classModifiers(
       t,
-      cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]))->vmClass());
+      cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]))->vmClass())
+         & ~ACC_SUPER;
 }
 
 extern "C" AVIAN_EXPORT jint JNICALL
-- 
2.43.0


From 58f62d4fbce6d36ecfe4e43e04fd4896719268b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 190/211] fix: a member of the wrong kind was reported when the
 code naming it was compiled, and null instances crashed unresolved accesses

---
 src/avian/machine.h |  25 ++++++++++
 src/compile.cpp     | 115 +++++++++++++++++++++++++++-----------------
 2 files changed, 95 insertions(+), 45 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index b124583..ef6e79b 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -3505,6 +3505,31 @@ inline GcField* resolveField(Thread* t,
   return resolveField(t, method->class_()->loader(), method, index, throw_);
 }
 
+inline void checkMethod(Thread* t, GcMethod* method, bool shouldBeStatic)
+{
+  if (((method->flags() & ACC_STATIC) == 0) == shouldBeStatic) {
+    throwNew(t,
+             GcIncompatibleClassChangeError::Type,
+             "expected %s.%s%s to be %s",
+             method->class_()->name()->body().begin(),
+             method->name()->body().begin(),
+             method->spec()->body().begin(),
+             shouldBeStatic ? "static" : "non-static");
+  }
+}
+
+inline void checkField(Thread* t, GcField* field, bool shouldBeStatic)
+{
+  if (((field->flags() & ACC_STATIC) == 0) == shouldBeStatic) {
+    throwNew(t,
+             GcIncompatibleClassChangeError::Type,
+             "expected %s.%s to be %s",
+             field->class_()->name()->body().begin(),
+             field->name()->body().begin(),
+             shouldBeStatic ? "static" : "non-static");
+  }
+}
+
 inline void acquireFieldForRead(Thread* t, GcField* field)
 {
   if (UNLIKELY(
diff --git a/src/compile.cpp b/src/compile.cpp
index 872887a..75879a1 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2482,20 +2482,9 @@ int64_t findInterfaceMethodFromInstanceAndReference(MyThread* t,
 
   GcMethod* method = resolveMethod(t, pair);
 
-  return findInterfaceMethodFromInstance(t, method, instance);
-}
+  checkMethod(t, method, false);
 
-void checkMethod(Thread* t, GcMethod* method, bool shouldBeStatic)
-{
-  if (((method->flags() & ACC_STATIC) == 0) == shouldBeStatic) {
-    throwNew(t,
-             GcIncompatibleClassChangeError::Type,
-             "expected %s.%s%s to be %s",
-             method->class_()->name()->body().begin(),
-             method->name()->body().begin(),
-             method->spec()->body().begin(),
-             shouldBeStatic ? "static" : "non-static");
-  }
+  return findInterfaceMethodFromInstance(t, method, instance);
 }
 
 int64_t findSpecialMethodFromReference(MyThread* t, GcPair* pair)
@@ -2504,13 +2493,13 @@ int64_t findSpecialMethodFromReference(MyThread* t, GcPair* pair)
 
   GcMethod* target = resolveMethod(t, pair);
 
+  checkMethod(t, target, false);
+
   GcClass* class_ = cast<GcMethod>(t, pair->first())->class_();
   if (isSpecialMethod(t, target, class_)) {
     target = findVirtualMethod(t, target, class_->super());
   }
 
-  checkMethod(t, target, false);
-
   return prepareMethodForCall(t, target);
 }
 
@@ -2531,10 +2520,14 @@ int64_t findVirtualMethodFromReference(MyThread* t,
 
   GcMethod* target = resolveMethod(t, pair);
 
-  target = findVirtualMethod(t, target, objectClass(t, instance));
-
   checkMethod(t, target, false);
 
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
+  target = findVirtualMethod(t, target, objectClass(t, instance));
+
   return prepareMethodForCall(t, target);
 }
 
@@ -2931,6 +2924,8 @@ uint64_t getStaticFieldValueFromReference(MyThread* t, GcPair* pair)
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  checkField(t, field, true);
+
   initClass(t, field->class_());
 
   ACQUIRE_FIELD_FOR_READ(t, field);
@@ -2945,6 +2940,12 @@ uint64_t getFieldValueFromReference(MyThread* t, GcPair* pair, object instance)
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  checkField(t, field, false);
+
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return getFieldValue(t, instance, field);
@@ -2957,6 +2958,8 @@ void setStaticLongFieldValueFromReference(MyThread* t,
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  checkField(t, field, true);
+
   initClass(t, field->class_());
 
   ACQUIRE_FIELD_FOR_WRITE(t, field);
@@ -2975,6 +2978,12 @@ void setLongFieldValueFromReference(MyThread* t,
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  checkField(t, field, false);
+
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
   fieldAtOffset<int64_t>(instance, field->offset()) = value;
@@ -2989,6 +2998,8 @@ void setStaticObjectFieldValueFromReference(MyThread* t,
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  checkField(t, field, true);
+
   initClass(t, field->class_());
 
   ACQUIRE_FIELD_FOR_WRITE(t, field);
@@ -3007,6 +3018,12 @@ void setObjectFieldValueFromReference(MyThread* t,
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  checkField(t, field, false);
+
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
   setField(t, instance, field->offset(), value);
@@ -3040,6 +3057,8 @@ void setStaticFieldValueFromReference(MyThread* t, GcPair* pair, uint32_t value)
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  checkField(t, field, true);
+
   initClass(t, field->class_());
 
   ACQUIRE_FIELD_FOR_WRITE(t, field);
@@ -3056,6 +3075,12 @@ void setFieldValueFromReference(MyThread* t,
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  checkField(t, field, false);
+
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
   setFieldValue(t, instance, field, value);
@@ -4030,18 +4055,6 @@ uintptr_t aioobThunk(MyThread* t);
 
 uintptr_t stackOverflowThunk(MyThread* t);
 
-void checkField(Thread* t, GcField* field, bool shouldBeStatic)
-{
-  if (((field->flags() & ACC_STATIC) == 0) == shouldBeStatic) {
-    throwNew(t,
-             GcIncompatibleClassChangeError::Type,
-             "expected %s.%s to be %s",
-             field->class_()->name()->body().begin(),
-             field->name()->body().begin(),
-             shouldBeStatic ? "static" : "non-static");
-  }
-}
-
 bool isLambda(Thread* t,
               GcClassLoader* loader,
               GcCharArray* bootstrapArray,
@@ -4677,6 +4690,12 @@ loop:
 
       GcField* field = resolveField(t, context->method, index - 1, false);
 
+      if (field
+          and ((field->flags() & ACC_STATIC) != 0) != (instruction == getstatic)) {
+        // this is an error if and when the instruction is executed
+        field = 0;
+      }
+
       if (LIKELY(field)) {
         if ((field->flags() & ACC_VOLATILE) and TargetBytesPerWord == 4
             and (field->code() == DoubleField or field->code() == LongField)) {
@@ -4693,8 +4712,6 @@ loop:
         ir::Value* table;
 
         if (instruction == getstatic) {
-          checkField(t, field, true);
-
           PROTECT(t, field);
 
           if (classNeedsInit(t, field->class_())) {
@@ -4708,8 +4725,6 @@ loop:
 
           table = frame->append(field->class_()->staticTable());
         } else {
-          checkField(t, field, false);
-
           table = frame->pop(ir::Type::object());
 
           if (inTryBlock(t, code, ip - 3)) {
@@ -5362,6 +5377,10 @@ loop:
       PROTECT(t, reference);
 
       GcMethod* target = resolveMethod(t, context->method, index - 1, false);
+      if (target and (target->flags() & ACC_STATIC) != 0) {
+        // this is an error if and when the instruction is executed
+        target = 0;
+      }
 
       object argument;
       Thunk thunk;
@@ -5369,8 +5388,6 @@ loop:
       int returnCode;
       bool tailCall;
       if (LIKELY(target)) {
-        checkMethod(t, target, false);
-
         argument = target;
         thunk = findInterfaceMethodFromInstanceThunk;
         parameterFootprint = target->parameterFootprint();
@@ -5419,6 +5436,10 @@ loop:
       PROTECT(t, reference);
 
       GcMethod* target = resolveMethod(t, context->method, index - 1, false);
+      if (target and (target->flags() & ACC_STATIC) != 0) {
+        // this is an error if and when the instruction is executed
+        target = 0;
+      }
 
       if (LIKELY(target)) {
         GcClass* class_ = context->method->class_();
@@ -5426,8 +5447,6 @@ loop:
           target = findVirtualMethod(t, target, class_->super());
         }
 
-        checkMethod(t, target, false);
-
         bool tailCall = isTailCall(t, code, ip, context->method, target);
 
         if (UNLIKELY(methodAbstract(t, target))) {
@@ -5460,10 +5479,12 @@ loop:
       PROTECT(t, reference);
 
       GcMethod* target = resolveMethod(t, context->method, index - 1, false);
+      if (target and (target->flags() & ACC_STATIC) == 0) {
+        // this is an error if and when the instruction is executed
+        target = 0;
+      }
 
       if (LIKELY(target)) {
-        checkMethod(t, target, true);
-
         if (not intrinsic(t, frame, target)) {
           bool tailCall = isTailCall(t, code, ip, context->method, target);
           compileDirectInvoke(t, frame, target, tailCall);
@@ -5492,10 +5513,12 @@ loop:
       PROTECT(t, reference);
 
       GcMethod* target = resolveMethod(t, context->method, index - 1, false);
+      if (target and (target->flags() & ACC_STATIC) != 0) {
+        // this is an error if and when the instruction is executed
+        target = 0;
+      }
 
       if (LIKELY(target)) {
-        checkMethod(t, target, false);
-
         if (not intrinsic(t, frame, target)) {
           bool tailCall = isTailCall(t, code, ip, context->method, target);
 
@@ -6094,14 +6117,18 @@ loop:
 
       GcField* field = resolveField(t, context->method, index - 1, false);
 
+      if (field
+          and ((field->flags() & ACC_STATIC) != 0) != (instruction == putstatic)) {
+        // this is an error if and when the instruction is executed
+        field = 0;
+      }
+
       if (LIKELY(field)) {
         int fieldCode = field->code();
 
         object staticTable = 0;
 
         if (instruction == putstatic) {
-          checkField(t, field, true);
-
           if (classNeedsInit(t, field->class_())) {
             PROTECT(t, field);
 
@@ -6115,8 +6142,6 @@ loop:
 
           staticTable = field->class_()->staticTable();
         } else {
-          checkField(t, field, false);
-
           if (inTryBlock(t, code, ip - 3)) {
             c->saveLocals();
             frame->trace(0, 0);
-- 
2.43.0


From b9b66f201e4ac2345eb5112c841a911fa5c4da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 191/211] fix: the interpreter did not check that a member is
 static or not as the instruction expects

---
 src/interpret.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 7c89c6a..f158289 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1573,7 +1573,7 @@ loop:
 
       GcField* field = resolveField(t, frameMethod(t, frame), index - 1);
 
-      assertT(t, (field->flags() & ACC_STATIC) == 0);
+      checkField(t, field, false);
 
       PROTECT(t, field);
 
@@ -1592,7 +1592,7 @@ loop:
 
     GcField* field = resolveField(t, frameMethod(t, frame), index - 1);
 
-    assertT(t, field->flags() & ACC_STATIC);
+    checkField(t, field, true);
 
     PROTECT(t, field);
 
@@ -2029,6 +2029,7 @@ loop:
     ip += 2;
 
     GcMethod* m = resolveMethod(t, frameMethod(t, frame), index - 1);
+    checkMethod(t, m, false);
 
     unsigned parameterFootprint = m->parameterFootprint();
     if (LIKELY(peekObject(t, sp - parameterFootprint))) {
@@ -2046,6 +2047,7 @@ loop:
     uint16_t index = codeReadInt16(t, code, ip);
 
     GcMethod* m = resolveMethod(t, frameMethod(t, frame), index - 1);
+    checkMethod(t, m, false);
 
     unsigned parameterFootprint = m->parameterFootprint();
     if (LIKELY(peekObject(t, sp - parameterFootprint))) {
@@ -2074,6 +2076,7 @@ loop:
     uint16_t index = codeReadInt16(t, code, ip);
 
     GcMethod* m = resolveMethod(t, frameMethod(t, frame), index - 1);
+    checkMethod(t, m, true);
     PROTECT(t, m);
 
     initClass(t, m->class_());
@@ -2086,6 +2089,7 @@ loop:
     uint16_t index = codeReadInt16(t, code, ip);
 
     GcMethod* m = resolveMethod(t, frameMethod(t, frame), index - 1);
+    checkMethod(t, m, false);
 
     unsigned parameterFootprint = m->parameterFootprint();
     if (LIKELY(peekObject(t, sp - parameterFootprint))) {
@@ -2689,7 +2693,7 @@ loop:
 
     GcField* field = resolveField(t, frameMethod(t, frame), index - 1);
 
-    assertT(t, (field->flags() & ACC_STATIC) == 0);
+    checkField(t, field, false);
     PROTECT(t, field);
 
     {
@@ -2763,7 +2767,7 @@ loop:
 
     GcField* field = resolveField(t, frameMethod(t, frame), index - 1);
 
-    assertT(t, field->flags() & ACC_STATIC);
+    checkField(t, field, true);
 
     PROTECT(t, field);
 
-- 
2.43.0


From 908a5bfc1358ffc7416db55ef4d4e222db3987e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 192/211] fix: casting null to a class which is not there, or
 testing it, failed

---
 src/compile.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 75879a1..057e5c5 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2862,6 +2862,11 @@ void checkCast(MyThread* t, GcClass* class_, object o)
 
 void checkCastFromReference(MyThread* t, GcPair* pair, object o)
 {
+  // the class is only resolved if there is something to check
+  if (o == 0) {
+    return;
+  }
+
   PROTECT(t, o);
 
   GcClass* c
@@ -3093,6 +3098,11 @@ uint64_t instanceOf64(Thread* t, GcClass* class_, object o)
 
 uint64_t instanceOfFromReference(Thread* t, GcPair* pair, object o)
 {
+  // the class is only resolved if there is something to check
+  if (o == 0) {
+    return 0;
+  }
+
   PROTECT(t, o);
 
   GcClass* c
-- 
2.43.0


From 23589a631317f01e3f5d1af01ec4a84b008a3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 193/211] fix: new of an abstract class or an interface made an
 instance

---
 src/avian/machine.h | 12 ++++++++++++
 src/compile.cpp     |  4 +++-
 src/interpret.cpp   |  2 ++
 src/types.def       |  2 ++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index ef6e79b..06d8ef1 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -3518,6 +3518,18 @@ inline void checkMethod(Thread* t, GcMethod* method, bool shouldBeStatic)
   }
 }
 
+inline bool instantiable(GcClass* c)
+{
+  return (c->flags() & (ACC_ABSTRACT | ACC_INTERFACE)) == 0;
+}
+
+inline void checkInstantiable(Thread* t, GcClass* c)
+{
+  if (UNLIKELY(not instantiable(c))) {
+    throwNew(t, GcInstantiationError::Type, "%s", c->name()->body().begin());
+  }
+}
+
 inline void checkField(Thread* t, GcField* field, bool shouldBeStatic)
 {
   if (((field->flags() & ACC_STATIC) == 0) == shouldBeStatic) {
diff --git a/src/compile.cpp b/src/compile.cpp
index 057e5c5..f882139 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -3140,6 +3140,8 @@ uint64_t makeNewFromReference(Thread* t, GcPair* pair)
 
   PROTECT(t, class_);
 
+  checkInstantiable(t, class_);
+
   initClass(t, class_);
 
   return makeNewGeneral64(t, class_);
@@ -6068,7 +6070,7 @@ loop:
 
       object argument;
       Thunk thunk;
-      if (LIKELY(class_)) {
+      if (LIKELY(class_ and instantiable(class_))) {
         argument = class_;
         if (class_->vmFlags() & (WeakReferenceFlag | HasFinalizerFlag)) {
           thunk = makeNewGeneral64Thunk;
diff --git a/src/interpret.cpp b/src/interpret.cpp
index f158289..92ebe5c 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -2615,6 +2615,8 @@ loop:
     GcClass* class_ = resolveClassInPool(t, frameMethod(t, frame), index - 1);
     PROTECT(t, class_);
 
+    checkInstantiable(t, class_);
+
     initClass(t, class_);
 
     pushObject(t, make(t, class_));
diff --git a/src/types.def b/src/types.def
index ae79e1a..bdb5d62 100644
--- a/src/types.def
+++ b/src/types.def
@@ -250,6 +250,8 @@
 
 (type incompatibleClassChangeError java/lang/IncompatibleClassChangeError)
 
+(type instantiationError java/lang/InstantiationError)
+
 (type abstractMethodError java/lang/AbstractMethodError)
 
 (type noSuchFieldError java/lang/NoSuchFieldError)
-- 
2.43.0


From 114241c53c8d84a637cb28f4a0cbf1250716f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 194/211] fix: a handler for a class which is not there made
 its method, or in the interpreter the exception, fail

---
 src/compile.cpp   | 34 +++++++++++++++++++++++++++++++---
 src/interpret.cpp |  5 +++--
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index f882139..785c795 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2128,7 +2128,23 @@ void* findExceptionHandler(Thread* t, GcMethod* method, void* ip)
         unsigned key = difference(ip, compiled) - 1;
 
         if (key >= start and key < end) {
-          GcClass* catchType = cast<GcClass>(t, table->body()[i + 1]);
+          object type = table->body()[i + 1];
+
+          if (type and objectClass(t, type) != vm::type(t, GcClass::Type)) {
+            // the class was not there when the method was compiled
+            PROTECT(t, table);
+            PROTECT(t, index);
+
+            type = findLoadedClass(t,
+                                   method->class_()->loader(),
+                                   cast<GcReference>(t, type)->name());
+
+            if (type == 0) {
+              continue;
+            }
+          }
+
+          GcClass* catchType = cast<GcClass>(t, type);
 
           if (exceptionMatch(t, catchType, t->exception)) {
             return compiled + index->body()[(i * 3) + 2];
@@ -6801,7 +6817,18 @@ GcArray* translateExceptionHandlerTable(MyThread* t,
           object type;
           if (exceptionHandlerCatchType(oldHandler)) {
             type = resolveClassInPool(
-                t, context->method, exceptionHandlerCatchType(oldHandler) - 1);
+                t,
+                context->method,
+                exceptionHandlerCatchType(oldHandler) - 1,
+                false);
+
+            if (type == 0) {
+              // not there (yet): see findExceptionHandler
+              type = singletonObject(
+                  t,
+                  context->method->code()->pool(),
+                  exceptionHandlerCatchType(oldHandler) - 1);
+            }
           } else {
             type = 0;
           }
@@ -10807,7 +10834,8 @@ void compile(MyThread* t,
       for (unsigned i = 0; i < ehTable->length(); ++i) {
         uint64_t handler = ehTable->body()[i];
         if (exceptionHandlerCatchType(handler)) {
-          resolveClassInPool(t, clone, exceptionHandlerCatchType(handler) - 1);
+          resolveClassInPool(
+              t, clone, exceptionHandlerCatchType(handler) - 1, false);
         }
       }
     }
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 92ebe5c..f553ebb 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -707,11 +707,12 @@ uint64_t findExceptionHandler(Thread* t, GcMethod* method, unsigned ip)
 
           PROTECT(t, eht);
           catchType = resolveClassInPool(
-              t, method, exceptionHandlerCatchType(eh) - 1);
+              t, method, exceptionHandlerCatchType(eh) - 1, false);
+
+          t->exception = e;
 
           if (catchType) {
             eh = eht->body()[i];
-            t->exception = e;
           } else {
             // can't find what we're supposed to catch - move on.
             continue;
-- 
2.43.0


From 4a644bd0ca793b5154983fb327b1a96ab44e2217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:41 +0000
Subject: [PATCH 195/211] fix: calling an abstract method, or a method of an
 interface which the object does not implement, crashed the VM

---
 src/avian/machine.h | 19 ++++++++++++++++++-
 src/compile.cpp     |  2 ++
 src/interpret.cpp   |  1 +
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 06d8ef1..6150cd2 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -2712,7 +2712,12 @@ inline GcMethod* findInterfaceMethod(Thread* t,
           t, cast<GcArray>(t, itable->body()[i + 1])->body()[method->offset()]);
     }
   }
-  abort(t);
+
+  throwNew(t,
+           GcIncompatibleClassChangeError::Type,
+           "%s does not implement %s",
+           class_->name()->body().begin(),
+           interface->name()->body().begin());
 }
 
 inline unsigned objectArrayLength(Thread* t UNUSED, object array)
@@ -3518,6 +3523,18 @@ inline void checkMethod(Thread* t, GcMethod* method, bool shouldBeStatic)
   }
 }
 
+inline void checkNotAbstract(Thread* t, GcMethod* method)
+{
+  if (UNLIKELY(method->code() == 0 and (method->flags() & ACC_NATIVE) == 0)) {
+    throwNew(t,
+             GcAbstractMethodError::Type,
+             "%s.%s%s",
+             method->class_()->name()->body().begin(),
+             method->name()->body().begin(),
+             method->spec()->body().begin());
+  }
+}
+
 inline bool instantiable(GcClass* c)
 {
   return (c->flags() & (ACC_ABSTRACT | ACC_INTERFACE)) == 0;
diff --git a/src/compile.cpp b/src/compile.cpp
index 785c795..16b1f98 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -7607,6 +7607,8 @@ void* compileVirtualMethod2(MyThread* t, GcClass* class_, unsigned index)
   GcMethod* target = resolveTarget(t, class_, index);
   PROTECT(t, target);
 
+  checkNotAbstract(t, target);
+
   compile(t, codeAllocator(t), 0, target);
 
   void* address = reinterpret_cast<void*>(methodAddress(t, target));
diff --git a/src/interpret.cpp b/src/interpret.cpp
index f553ebb..5b1541b 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3015,6 +3015,7 @@ invoke : {
   if (method->flags() & ACC_NATIVE) {
     invokeNative(t, method);
   } else {
+    checkNotAbstract(t, method);
     checkStack(t, method);
     pushFrame(t, method);
   }
-- 
2.43.0


From 6f866914b3d65e0fd5c795fcf37078f3dd83309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:03 +0000
Subject: [PATCH 196/211] fix: an instruction naming a member of the wrong kind
 which another had resolved

---
 src/compile.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 16b1f98..301cad1 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2429,6 +2429,19 @@ void compile(MyThread* t,
              BootContext* bootContext,
              GcMethod* method);
 
+GcReference* makeMemberReference(Thread* t,
+                                 GcClass* class_,
+                                 GcByteArray* name,
+                                 GcByteArray* spec)
+{
+  PROTECT(t, class_);
+
+  GcReference* reference = makeReference(t, 0, 0, name, spec);
+  setField(t, reference, ReferenceClass, class_);
+
+  return reference;
+}
+
 GcMethod* resolveMethod(Thread* t, GcPair* pair)
 {
   GcReference* reference = cast<GcReference>(t, pair->second());
@@ -4721,6 +4734,8 @@ loop:
       if (field
           and ((field->flags() & ACC_STATIC) != 0) != (instruction == getstatic)) {
         // this is an error if and when the instruction is executed
+        reference = makeMemberReference(
+            t, field->class_(), field->name(), field->spec());
         field = 0;
       }
 
@@ -5407,6 +5422,8 @@ loop:
       GcMethod* target = resolveMethod(t, context->method, index - 1, false);
       if (target and (target->flags() & ACC_STATIC) != 0) {
         // this is an error if and when the instruction is executed
+        reference = makeMemberReference(
+            t, target->class_(), target->name(), target->spec());
         target = 0;
       }
 
@@ -5466,6 +5483,8 @@ loop:
       GcMethod* target = resolveMethod(t, context->method, index - 1, false);
       if (target and (target->flags() & ACC_STATIC) != 0) {
         // this is an error if and when the instruction is executed
+        reference = makeMemberReference(
+            t, target->class_(), target->name(), target->spec());
         target = 0;
       }
 
@@ -5509,6 +5528,8 @@ loop:
       GcMethod* target = resolveMethod(t, context->method, index - 1, false);
       if (target and (target->flags() & ACC_STATIC) == 0) {
         // this is an error if and when the instruction is executed
+        reference = makeMemberReference(
+            t, target->class_(), target->name(), target->spec());
         target = 0;
       }
 
@@ -5543,6 +5564,8 @@ loop:
       GcMethod* target = resolveMethod(t, context->method, index - 1, false);
       if (target and (target->flags() & ACC_STATIC) != 0) {
         // this is an error if and when the instruction is executed
+        reference = makeMemberReference(
+            t, target->class_(), target->name(), target->spec());
         target = 0;
       }
 
@@ -6148,6 +6171,8 @@ loop:
       if (field
           and ((field->flags() & ACC_STATIC) != 0) != (instruction == putstatic)) {
         // this is an error if and when the instruction is executed
+        reference = makeMemberReference(
+            t, field->class_(), field->name(), field->spec());
         field = 0;
       }
 
-- 
2.43.0


From 23057e956e3b4bee5f3a1995e1c8bca65917271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:36 +0000
Subject: [PATCH 197/211] fix: a reference was protected twice while a virtual
 call to a missing method was compiled

---
 src/compile.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 301cad1..0bbddc7 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -5608,7 +5608,6 @@ loop:
         }
       } else {
         GcReference* ref = cast<GcReference>(t, reference);
-        PROTECT(t, reference);
         PROTECT(t, ref);
 
         GcPair* pair = makePair(t, context->method, reference);
-- 
2.43.0


From 34d238a9f3cf098e1298a07d058aa6efc26ef34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:16 +0000
Subject: [PATCH 198/211] fix: the table of dynamic call sites was not updated
 in other threads when it grew, and its growth lost the site

---
 src/compile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 0bbddc7..afbb10f 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -1292,7 +1292,7 @@ unsigned& dynamicTableSize(MyThread* t);
 
 void updateDynamicTable(MyThread* t, MyThread* o)
 {
-  o->dynamicTable = dynamicTable(t);
+  t->dynamicTable = dynamicTable(o);
   if (t->peer)
     updateDynamicTable(static_cast<MyThread*>(t->peer), o);
   if (t->child)
@@ -1311,6 +1311,8 @@ Allocator* allocator(MyThread* t);
 
 unsigned addDynamic(MyThread* t, GcInvocation* invocation)
 {
+  PROTECT(t, invocation);
+
   ACQUIRE(t, t->m->classLock);
 
   int index = invocation->index();
-- 
2.43.0


From 5e35ec7f72eb2a39cd09fa28313a98d173d04aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:21 +0000
Subject: [PATCH 199/211] fix: lambdas and method references did not convert
 arguments and results, and could not have marker interfaces or bridges

---
 classpath/avian/Assembler.java                |   3 +
 .../java/lang/invoke/LambdaMetafactory.java   | 381 ++++++++++--------
 src/avian/machine.h                           |  19 +-
 src/compile.cpp                               |  13 +-
 src/machine.cpp                               |  53 ++-
 5 files changed, 278 insertions(+), 191 deletions(-)

diff --git a/classpath/avian/Assembler.java b/classpath/avian/Assembler.java
index d5e505a..b3a82d5 100644
--- a/classpath/avian/Assembler.java
+++ b/classpath/avian/Assembler.java
@@ -36,10 +36,12 @@ public class Assembler {
   public static final int dload = 0x18;
   public static final int dreturn = 0xaf;
   public static final int dup = 0x59;
+  public static final int f2d = 0x8d;
   public static final int fload = 0x17;
   public static final int freturn = 0xae;
   public static final int getfield = 0xb4;
   public static final int goto_ = 0xa7;
+  public static final int i2l = 0x85;
   public static final int iload = 0x15;
   public static final int invokeinterface = 0xb9;
   public static final int invokespecial = 0xb7;
@@ -47,6 +49,7 @@ public class Assembler {
   public static final int invokevirtual = 0xb6;
   public static final int ireturn = 0xac;
   public static final int jsr = 0xa8;
+  public static final int l2f = 0x89;
   public static final int ldc_w = 0x13;
   public static final int lload = 0x16;
   public static final int lreturn = 0xad;
diff --git a/classpath/java/lang/invoke/LambdaMetafactory.java b/classpath/java/lang/invoke/LambdaMetafactory.java
index bc18e9d..394a3db 100644
--- a/classpath/java/lang/invoke/LambdaMetafactory.java
+++ b/classpath/java/lang/invoke/LambdaMetafactory.java
@@ -147,167 +147,203 @@ public class LambdaMetafactory {
     return result;
   }
 
-  private static void maybeBoxOrUnbox(ByteArrayOutputStream out,
-                                      List<PoolEntry> pool,
-                                      MethodType.TypeSpec from,
-                                      MethodType.TypeSpec to)
+  private static final String[] Wrappers = new String[] {
+    "ZBSCIFJD",
+    "java/lang/Boolean", "java/lang/Byte", "java/lang/Short",
+    "java/lang/Character", "java/lang/Integer", "java/lang/Float",
+    "java/lang/Long", "java/lang/Double"
+  };
+
+  private static final String[] PrimitiveNames = new String[] {
+    "boolean", "byte", "short", "char", "int", "float", "long", "double"
+  };
+
+  private static boolean isPrimitive(String spec) {
+    return spec.length() == 1;
+  }
+
+  private static String wrapper(char primitive) {
+    return Wrappers[Wrappers[0].indexOf(primitive) + 1];
+  }
+
+  // returns the type the wrapper class contains, or zero if this is
+  // not the spec of a wrapper class
+  private static char wrapped(String spec) {
+    for (int i = 1; i < Wrappers.length; ++i) {
+      if (spec.equals("L" + Wrappers[i] + ";")) {
+        return Wrappers[0].charAt(i - 1);
+      }
+    }
+    return 0;
+  }
+
+  private static void cast(ByteArrayOutputStream out,
+                           List<PoolEntry> pool,
+                           String from,
+                           String to)
     throws IOException
   {
-    if (to.type().isPrimitive()) {
-      if (! (from.type().isPrimitive() || "V".equals(to.spec()))) {
-        write1(out, invokevirtual);
-
-        try {
-          switch (to.spec()) {
-          case "Z":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Boolean.class.getMethod("booleanValue")));
-            break;
-
-          case "B":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Byte.class.getMethod("byteValue")));
-            break;
-
-          case "S":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Short.class.getMethod("shortValue")));
-            break;
-
-          case "C":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Character.class.getMethod("charValue")));
-            break;
-
-          case "I":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Integer.class.getMethod("intValue")));
-            break;
-
-          case "F":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Float.class.getMethod("floatValue")));
-            break;
-
-          case "J":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Long.class.getMethod("longValue")));
-            break;
-
-          case "D":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Double.class.getMethod("doubleValue")));
-            break;
-
-          default:
-            throw new AssertionError("don't know how to auto-unbox to " + to.spec());
-          }
-        } catch (NoSuchMethodException e) {
-          throw new Error(e);
-        }
+    if (! (from.equals(to) || "Ljava/lang/Object;".equals(to))) {
+      write1(out, checkcast);
+      write2(out, ConstantPool.addClass
+             (pool, to.charAt(0) == 'L'
+              ? to.substring(1, to.length() - 1) : to) + 1);
+    }
+  }
+
+  private static void box(ByteArrayOutputStream out,
+                          List<PoolEntry> pool,
+                          char primitive)
+    throws IOException
+  {
+    String class_ = wrapper(primitive);
+    write1(out, invokestatic);
+    write2(out, ConstantPool.addMethodRef
+           (pool, class_, "valueOf",
+            "(" + primitive + ")L" + class_ + ";") + 1);
+  }
+
+  private static void unbox(ByteArrayOutputStream out,
+                            List<PoolEntry> pool,
+                            String class_,
+                            char primitive)
+    throws IOException
+  {
+    write1(out, invokevirtual);
+    write2(out, ConstantPool.addMethodRef
+           (pool, class_,
+            PrimitiveNames[Wrappers[0].indexOf(primitive)] + "Value",
+            "()" + primitive) + 1);
+  }
+
+  private static void widen(ByteArrayOutputStream out, char from, char to)
+    throws IOException
+  {
+    int f = "JFD".indexOf(from);
+    int t = "JFD".indexOf(to);
+    if (f != t && t >= 0) {
+      if (f < 0) {
+        write1(out, i2l + t);
+      } else if (f == 0) {
+        write1(out, l2f + (t - 1));
+      } else {
+        write1(out, f2d);
       }
-    } else if (from.type().isPrimitive()) {
-      write1(out, invokestatic);
+    }
+  }
+
+  // Convert the value on the top of the stack, which is known to be of
+  // type "from", and which the type arguments of the functional
+  // interface imply is of type "actual", to type "to".
+  private static void convert(ByteArrayOutputStream out,
+                              List<PoolEntry> pool,
+                              String from,
+                              String actual,
+                              String to)
+    throws IOException
+  {
+    if ("V".equals(from) || "V".equals(to)) {
+      return;
+    }
 
-      try {
-        switch (from.spec()) {
-        case "Z":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Boolean.class.getMethod
-                                ("valueOf", Boolean.TYPE)));
-          break;
-
-        case "B":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Byte.class.getMethod
-                                ("valueOf", Byte.TYPE)));
-          break;
-
-        case "S":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Short.class.getMethod
-                                ("valueOf", Short.TYPE)));
-          break;
-
-        case "C":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Character.class.getMethod
-                                ("valueOf", Character.TYPE)));
-          break;
-
-        case "I":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Integer.class.getMethod
-                                ("valueOf", Integer.TYPE)));
-          break;
-
-        case "F":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Float.class.getMethod
-                                ("valueOf", Float.TYPE)));
-          break;
-
-        case "J":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Long.class.getMethod
-                                ("valueOf", Long.TYPE)));
-          break;
-
-        case "D":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Double.class.getMethod
-                                ("valueOf", Double.TYPE)));
-          break;
-
-        default:
-          throw new AssertionError("don't know how to autobox from " + from.spec());
+    if (isPrimitive(from)) {
+      char f = from.charAt(0);
+      if (isPrimitive(to)) {
+        widen(out, f, to.charAt(0));
+      } else {
+        char w = wrapped(to);
+        if (w != 0) {
+          widen(out, f, w);
+          f = w;
         }
-      } catch (NoSuchMethodException e) {
-        throw new Error(e);
+        box(out, pool, f);
+      }
+    } else {
+      if (isPrimitive(actual)) {
+        actual = from;
+      }
+      cast(out, pool, from, actual);
+
+      if (isPrimitive(to)) {
+        char t = to.charAt(0);
+        char w = wrapped(actual);
+        if (w != 0) {
+          unbox(out, pool, wrapper(w), w);
+          widen(out, w, t);
+        } else {
+          String class_ = t == 'Z' || t == 'C'
+            ? wrapper(t) : "java/lang/Number";
+          cast(out, pool, actual, "L" + class_ + ";");
+          unbox(out, pool, class_, t);
+        }
+      } else {
+        cast(out, pool, actual, to);
       }
     }
   }
 
   private static byte[] makeInvocationCode(List<PoolEntry> pool,
                                            String className,
-                                           String constructorSpec,
                                            MethodType fieldType,
                                            MethodType localType,
+                                           MethodType actualType,
                                            MethodHandle implementation)
     throws IOException
   {
     ByteArrayOutputStream out = new ByteArrayOutputStream();
     write2(out, fieldType.footprint()
-           + localType.footprint() + 4); // max stack
+           + (localType.footprint() * 2) + 4); // max stack
     write2(out, localType.footprint() + 1); // max locals
     write4(out, 0); // length (we'll set the real value later)
 
-    write1(out, aload_0);
+    String implementationClass = Classes.makeString
+      (implementation.method.class_.name, 0,
+       implementation.method.class_.name.length - 1);
 
     Iterator<MethodType.Parameter> dst = implementation.type().parameters().iterator();
 
-    boolean skip = implementation.kind != MethodHandle.REF_invokeStatic;
+    boolean receiver = false;
+
+    switch (implementation.kind) {
+    case MethodHandle.REF_invokeStatic:
+      break;
+
+    case MethodHandle.REF_newInvokeSpecial:
+      write1(out, new_);
+      write2(out, ConstantPool.addClass(pool, implementationClass) + 1);
+      write1(out, dup);
+      break;
+
+    default:
+      receiver = true;
+    }
 
     for (MethodType.Parameter p: fieldType.parameters()) {
       write1(out, aload_0);
       write1(out, getfield);
       write2(out, ConstantPool.addFieldRef
              (pool, className, "field" + p.index(), p.spec()) + 1);
-      if (skip) {
-        skip = false;
+      if (receiver) {
+        receiver = false;
       } else {
-        maybeBoxOrUnbox(out, pool, p, dst.next());
+        convert(out, pool, p.spec(), p.spec(), dst.next().spec());
       }
     }
 
+    Iterator<MethodType.Parameter> actual = actualType.parameters().iterator();
+
     for (MethodType.Parameter p: localType.parameters()) {
       write1(out, p.load());
       write1(out, p.position() + 1);
-      if (skip) {
-        skip = false;
+      String to;
+      if (receiver) {
+        receiver = false;
+        to = implementationClass.charAt(0) == '['
+          ? implementationClass : "L" + implementationClass + ";";
       } else {
-        maybeBoxOrUnbox(out, pool, p, dst.next());
+        to = dst.next().spec();
       }
+      convert(out, pool, p.spec(), actual.next().spec(), to);
     }
 
     switch (implementation.kind) {
@@ -322,18 +358,7 @@ public class LambdaMetafactory {
       break;
 
     case MethodHandle.REF_invokeSpecial:
-      write1(out, invokespecial);
-      writeMethodReference(out, pool, implementation.method);
-      break;
-
     case MethodHandle.REF_newInvokeSpecial:
-      write1(out, new_);
-      write2(out, ConstantPool.addClass
-             (pool,
-              Classes.makeString
-              (implementation.method.class_.name, 0,
-               implementation.method.class_.name.length - 1)) + 1);
-      write1(out, dup);
       write1(out, invokespecial);
       writeMethodReference(out, pool, implementation.method);
       break;
@@ -350,7 +375,9 @@ public class LambdaMetafactory {
     }
 
     if (implementation.kind != MethodHandle.REF_newInvokeSpecial) {
-      maybeBoxOrUnbox(out, pool, implementation.type().result(), localType.result());
+      String result = localType.result().spec();
+      convert(out, pool, implementation.type().result().spec(), result,
+              result);
     }
     write1(out, localType.result().return_());
 
@@ -399,7 +426,8 @@ public class LambdaMetafactory {
                                   String implementationClass,
                                   String implementationName,
                                   String implementationSpec,
-                                  int implementationKind)
+                                  int implementationKind,
+                                  String actualType)
   {
     return makeLambda(invokedName,
                       new MethodType(invokedType),
@@ -408,14 +436,18 @@ public class LambdaMetafactory {
                                        implementationName,
                                        implementationSpec,
                                        implementationKind),
-                      emptyInterfaceList);
+                      new MethodType(actualType),
+                      emptyInterfaceList,
+                      emptyTypeList);
   }
 
   private static byte[] makeLambda(String invokedName,
                                    MethodType invokedType,
                                    MethodType methodType,
                                    MethodHandle methodImplementation,
-                                   Class[] interfaces)
+                                   MethodType actualType,
+                                   Class[] interfaces,
+                                   MethodType[] bridges)
   {
     String className;
     { int number;
@@ -467,8 +499,18 @@ public class LambdaMetafactory {
          (Modifier.PUBLIC,
           ConstantPool.addUtf8(pool, invokedName),
           ConstantPool.addUtf8(pool, methodType.toMethodDescriptorString()),
-          makeInvocationCode(pool, className, constructorSpec, invokedType,
-                             methodType, methodImplementation)));
+          makeInvocationCode(pool, className, invokedType, methodType,
+                             actualType, methodImplementation)));
+
+      for (MethodType bridge: bridges) {
+        methodTable.add
+          (new MethodData
+           (Modifier.PUBLIC,
+            ConstantPool.addUtf8(pool, invokedName),
+            ConstantPool.addUtf8(pool, bridge.toMethodDescriptorString()),
+            makeInvocationCode(pool, className, invokedType, bridge,
+                               actualType, methodImplementation)));
+      }
     } catch (IOException e) {
       AssertionError error = new AssertionError();
       error.initCause(e);
@@ -510,6 +552,7 @@ public class LambdaMetafactory {
   }
 
   private static final Class[] emptyInterfaceList = new Class[] {};
+  private static final MethodType[] emptyTypeList = new MethodType[] {};
 
   public static CallSite metafactory(MethodHandles.Lookup caller,
                                      String invokedName,
@@ -519,7 +562,7 @@ public class LambdaMetafactory {
                                      MethodType instantiatedMethodType)
     throws LambdaConversionException
   {
-    byte[] classData = makeLambda(invokedName, invokedType, methodType, methodImplementation, emptyInterfaceList);
+    byte[] classData = makeLambda(invokedName, invokedType, methodType, methodImplementation, instantiatedMethodType, emptyInterfaceList, emptyTypeList);
     return makeCallSite(invokedType, classData);
   }
 
@@ -545,9 +588,11 @@ public class LambdaMetafactory {
     //  )
     MethodType methodType = (MethodType) args[0];
     MethodHandle methodImplementation = (MethodHandle) args[1];
+    MethodType instantiatedMethodType = (MethodType) args[2];
 
     int flags = (Integer) args[3];
     boolean serializable = (flags & FLAG_SERIALIZABLE) != 0;
+    int index = 4;
 
     // Marker interfaces are added to a lambda when they're written like this:
     //
@@ -556,42 +601,42 @@ public class LambdaMetafactory {
     // The intersection type in the cast here indicates to the compiler what interfaces
     // the generated lambda class should implement. Because a lambda has (by definition)
     // one method only, it is meaningless for these interfaces to contain anything, thus
-    // they are only allowed to be empty marker interfaces. In practice the Serializable
-    // interface is handled specially and the use of markers is extremely rare. Adding
-    // support would be easy though.
-    if ((flags & FLAG_MARKERS) != 0)
-      throw new UnsupportedOperationException("Marker interfaces on lambdas are not supported on Avian yet. Sorry.");
-
-    // In some cases there is a mismatch between what the JVM type system supports and
-    // what the Java language supports. In other cases the type of a lambda expression
-    // may not perfectly match the functional interface which represents it. Consider the
-    // following case:
-    //
-    //    interface I { void foo(Integer i, String s1, Strings s2) }
-    //    class Foo { static void m(Number i, Object... rest) {} }
-    //
-    //    I lambda = Foo::m
+    // they are only allowed to be empty marker interfaces. The Serializable interface
+    // is handled specially.
+    List<Class> interfaces = new ArrayList();
+
+    if ((flags & FLAG_MARKERS) != 0) {
+      int count = (Integer) args[index++];
+      for (int i = 0; i < count; ++i) {
+        interfaces.add((Class) args[index++]);
+      }
+    }
+
+    // The functional interface may inherit or override its method with other types than
+    // those it is declared with, e.g.:
     //
-    // This is allowed by the Java language, even though the interface representing the
-    // lambda specifies three specific arguments and the method implementing the lambda
-    // uses varargs and a different type signature. Behind the scenes the compiler generates
-    // a "bridge" method that does the adaptation.
+    //    interface I<T> { void foo(T v) }
+    //    interface J extends I<String> { void foo(String v); }
     //
-    // You can learn more here: http://www.oracle.com/technetwork/java/jvmls2013heid-2013922.pdf
-    // and here: http://cr.openjdk.java.net/~briangoetz/lambda/lambda-translation.html
+    // A lambda which implements J must have both methods.
+    MethodType[] bridges = emptyTypeList;
+
     if ((flags & FLAG_BRIDGES) != 0) {
-      int bridgeCount = (Integer) args[4];
-      if (bridgeCount > 0)
-        throw new UnsupportedOperationException("A lambda that requires bridge methods was used, this is not yet supported by Avian. Sorry.");
+      int count = (Integer) args[index++];
+      bridges = new MethodType[count];
+      for (int i = 0; i < count; ++i) {
+        bridges[i] = (MethodType) args[index++];
+      }
     }
 
     // TODO: This is not necessary if the function type interface is already inheriting
     // from Serializable.
-    Class[] interfaces = new Class[serializable ? 1 : 0];
-    if (serializable)
-      interfaces[0] = java.io.Serializable.class;
+    if (serializable && ! interfaces.contains(java.io.Serializable.class)) {
+      interfaces.add(java.io.Serializable.class);
+    }
 
-    byte[] classData = makeLambda(invokedName, invokedType, methodType, methodImplementation, interfaces);
+    byte[] classData = makeLambda(invokedName, invokedType, methodType, methodImplementation, instantiatedMethodType,
+                                    interfaces.toArray(new Class[interfaces.size()]), bridges);
     return makeCallSite(invokedType, classData);
   }
 }
diff --git a/src/avian/machine.h b/src/avian/machine.h
index 6150cd2..69b2540 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -3403,16 +3403,16 @@ inline GcClass* resolveClassInObject(Thread* t,
 
 inline GcClass* resolveClassInPool(Thread* t,
                                    GcClassLoader* loader,
-                                   GcMethod* method,
+                                   GcSingleton* pool,
                                    unsigned index,
                                    bool throw_ = true)
 {
-  object o = singletonObject(t, method->code()->pool(), index);
+  object o = singletonObject(t, pool, index);
 
   loadMemoryBarrier();
 
   if (objectClass(t, o) == type(t, GcReference::Type)) {
-    PROTECT(t, method);
+    PROTECT(t, pool);
 
     GcClass* c
         = resolveClass(t, loader, cast<GcReference>(t, o)->name(), throw_);
@@ -3420,14 +3420,23 @@ inline GcClass* resolveClassInPool(Thread* t,
     if (c) {
       storeStoreMemoryBarrier();
 
-      method->code()->pool()->setBodyElement(
-          t, index, reinterpret_cast<uintptr_t>(c));
+      pool->setBodyElement(t, index, reinterpret_cast<uintptr_t>(c));
     }
     return c;
   }
   return cast<GcClass>(t, o);
 }
 
+inline GcClass* resolveClassInPool(Thread* t,
+                                   GcClassLoader* loader,
+                                   GcMethod* method,
+                                   unsigned index,
+                                   bool throw_ = true)
+{
+  return resolveClassInPool(
+      t, loader, method->code()->pool(), index, throw_);
+}
+
 inline GcClass* resolveClassInPool(Thread* t,
                                    GcMethod* method,
                                    unsigned index,
diff --git a/src/compile.cpp b/src/compile.cpp
index afbb10f..7971fce 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -5274,6 +5274,7 @@ loop:
                                                  "Ljava/lang/String;"
                                                  "Ljava/lang/String;"
                                                  "I"
+                                                 "Ljava/lang/String;"
                                                  ")[B");
 
               GcMethodHandle* handle
@@ -5321,7 +5322,17 @@ loop:
                   e->vtable->NewStringUTF(e,
                                           reinterpret_cast<const char*>(
                                               method->spec()->body().begin())),
-                  kind);
+                  kind,
+                  e->vtable->NewStringUTF(
+                      e,
+                      reinterpret_cast<const char*>(
+                          cast<GcByteArray>(
+                              t,
+                              singletonObject(t,
+                                              invocation->pool(),
+                                              bootstrapArray->body()[3]))
+                              ->body()
+                              .begin())));
 
               uint8_t* bytes = reinterpret_cast<uint8_t*>(
                   e->vtable->GetPrimitiveArrayCritical(e, lambda, 0));
diff --git a/src/machine.cpp b/src/machine.cpp
index 184112c..3c8157a 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -6195,18 +6195,9 @@ GcCallSite* resolveDynamic(Thread* t, GcInvocation* invocation)
                "Ljava/lang/invoke/CallSite;") == 0) {
     // If so, create a new array to store the varargs in, and hardcode the BSM signature.
     array = makeArray(t, bootstrapArray->length() - 1);
-    spec = "(Ljava/lang/invoke/MethodHandles$Lookup;"
-      "Ljava/lang/String;"
-      "Ljava/lang/invoke/MethodType;"
-      "Ljava/lang/invoke/MethodType;"
-      "Ljava/lang/invoke/MethodHandle;"
-      "Ljava/lang/invoke/MethodType;"
-      "I"
-      "I"
-      "[Ljava/lang/Class;"
-      "I"
-      "[Ljava/lang/invoke/MethodType;"
-      ")Ljava/lang/invoke/CallSite;";
+    // The types of the arguments beyond the first few depend on their values, so we
+    // use the types of the constants instead of a signature.
+    spec = 0;
   } else if (bootstrap->parameterCount() == 2 + bootstrapArray->length()) {
     // We're calling the simpler `metafactory`. 2 + bootstrapArray->length() is the
     // arguments to the bootstrap method (bootstrapArray->length() - 1), plus the 3 static
@@ -6219,11 +6210,13 @@ GcCallSite* resolveDynamic(Thread* t, GcInvocation* invocation)
     abort(t);
   }
 
-  MethodSpecIterator it(t, spec);
+  MethodSpecIterator it(t, spec ? spec : "()V");
 
   // Skip over the already handled 3 arguments.
-  for (unsigned i = 0; i < argument; ++i)
-    it.next();
+  if (spec) {
+    for (unsigned i = 0; i < argument; ++i)
+      it.next();
+  }
 
   // If we're calling altMetafactory then we reset the argument
   // offset, because we are filling the vararg array instead of the
@@ -6236,13 +6229,33 @@ GcCallSite* resolveDynamic(Thread* t, GcInvocation* invocation)
   // the bootstrap method's name), `it` iterates through the corresponding types
   // in the method signature
   unsigned i = 0;
-  while (i + 1 < bootstrapArray->length() && it.hasNext()) {
-    const char* p = it.next();
+  while (i + 1 < bootstrapArray->length() && (spec == 0 || it.hasNext())) {
+    const char* p;
+    if (spec) {
+      p = it.next();
+    } else {
+      unsigned index = bootstrapArray->body()[i + 1];
+      if (singletonIsObject(t, invocation->pool(), index)) {
+        object o = singletonObject(t, invocation->pool(), index);
+        if (objectClass(t, o) == vm::type(t, GcByteArray::Type)) {
+          p = "Ljava/lang/invoke/MethodType;";
+        } else if (objectClass(t, o) == vm::type(t, GcMethodHandle::Type)
+                   or (objectClass(t, o) == vm::type(t, GcReference::Type)
+                       and cast<GcReference>(t, o)->kind())) {
+          p = "Ljava/lang/invoke/MethodHandle;";
+        } else {
+          p = "Ljava/lang/Class;";
+        }
+      } else {
+        p = "I";
+      }
+    }
 
     switch (*p) {
     case 'L': {
       const char* const methodType = "Ljava/lang/invoke/MethodType;";
       const char* const methodHandle = "Ljava/lang/invoke/MethodHandle;";
+      const char* const class_ = "Ljava/lang/Class;";
       if (strncmp(p, methodType, strlen(methodType)) == 0) {
         GcMethodType* type = makeMethodType(
             t,
@@ -6266,6 +6279,12 @@ GcCallSite* resolveDynamic(Thread* t, GcInvocation* invocation)
                                                   GcNoSuchMethodError::Type));
 
         array->setBodyElement(t, i + argument, handle);
+      } else if (strncmp(p, class_, strlen(class_)) == 0) {
+        GcClass* argumentClass = resolveClassInPool(
+            t, c->loader(), invocation->pool(), bootstrapArray->body()[i + 1]);
+
+        GcJclass* jclass = getJClass(t, argumentClass);
+        array->setBodyElement(t, i + argument, jclass);
       } else {
         abort(t);
       }
-- 
2.43.0


From adc8f7422b0b9c55752ab965befff2dda7ed4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 200/211] fix: which default method a class inherits depended
 on the order of a hash table, and on its superclass

---
 src/machine.cpp | 177 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 152 insertions(+), 25 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 3c8157a..4e2d011 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -2356,16 +2356,114 @@ GcCode* parseCode(Thread* t, Stream& s, GcSingleton* pool)
   return code;
 }
 
+// Finds the specified method among those which the specified class
+// declares itself, i.e. not those added by addInterfaceMethods.
+GcMethod* findDeclaredVirtual(Thread* t, GcClass* c, GcMethod* method)
+{
+  GcArray* table = cast<GcArray>(t, c->methodTable());
+  if (table) {
+    unsigned count = table->length();
+    GcClassAddendum* addendum = c->addendum();
+    if (addendum
+        and static_cast<int32_t>(addendum->declaredMethodCount()) >= 0) {
+      count = addendum->declaredMethodCount();
+    }
+
+    for (unsigned i = 0; i < count; ++i) {
+      GcMethod* m = cast<GcMethod>(t, table->body()[i]);
+      if (methodEqual(t, m, method) and methodVirtual(t, m)) {
+        return m;
+      }
+    }
+  }
+  return 0;
+}
+
+bool isSuperinterface(Thread* t, GcClass* interface, GcClass* of)
+{
+  GcArray* table = cast<GcArray>(t, of->interfaceTable());
+  if (table) {
+    for (unsigned i = 0; i < table->length(); ++i) {
+      if (table->body()[i] == interface) {
+        return true;
+      }
+    }
+  }
+  return false;
+}
+
+// Finds the declaration of the specified method which the specified
+// class or interface inherits from its superinterfaces: one no other
+// superinterface overrides, preferably one with an implementation.
+GcMethod* findInheritedFromInterfaces(Thread* t,
+                                      GcClass* class_,
+                                      GcMethod* method)
+{
+  GcArray* itable = cast<GcArray>(t, class_->interfaceTable());
+  unsigned stride = (class_->flags() & ACC_INTERFACE) ? 1 : 2;
+
+  GcMethod* result = 0;
+  for (unsigned i = 0; i < itable->length(); i += stride) {
+    GcClass* interface = cast<GcClass>(t, itable->body()[i]);
+    GcMethod* m = findDeclaredVirtual(t, interface, method);
+    if (m == 0) {
+      continue;
+    }
+
+    bool overridden = false;
+    for (unsigned j = 0; j < itable->length() and not overridden;
+         j += stride) {
+      GcClass* other = cast<GcClass>(t, itable->body()[j]);
+      overridden = other != interface and isSuperinterface(t, interface, other)
+                   and findDeclaredVirtual(t, other, method);
+    }
+
+    if (not overridden
+        and (result == 0
+             or ((result->flags() & ACC_ABSTRACT)
+                 and (m->flags() & ACC_ABSTRACT) == 0))) {
+      result = m;
+    }
+  }
+  return result;
+}
+
+GcMethod* makeInterfaceMethod(Thread* t,
+                              GcClass* class_,
+                              GcMethod* method,
+                              unsigned offset)
+{
+  return makeMethod(t,
+                    method->vmFlags(),
+                    method->returnCode(),
+                    method->parameterCount(),
+                    method->parameterFootprint(),
+                    method->flags(),
+                    offset,
+                    0,
+                    0,
+                    method->name(),
+                    method->spec(),
+                    0,
+                    class_,
+                    method->code());
+}
+
+// Adds the methods which the class inherits from its superinterfaces
+// and neither declares nor inherits from its superclass.  Returns the
+// new methods; those which replace methods which the superclass
+// inherited from its own superinterfaces are added to overrides.
 GcList* addInterfaceMethods(Thread* t,
                             GcClass* class_,
                             GcHashMap* virtualMap,
                             unsigned* virtualCount,
-                            bool makeList)
+                            GcList* overrides)
 {
   GcArray* itable = cast<GcArray>(t, class_->interfaceTable());
   if (itable) {
     PROTECT(t, class_);
     PROTECT(t, virtualMap);
+    PROTECT(t, overrides);
     PROTECT(t, itable);
 
     GcList* list = 0;
@@ -2377,7 +2475,16 @@ GcList* addInterfaceMethods(Thread* t,
     GcArray* vtable = 0;
     PROTECT(t, vtable);
 
-    unsigned stride = (class_->flags() & ACC_INTERFACE) ? 1 : 2;
+    bool isInterface = class_->flags() & ACC_INTERFACE;
+
+    // only a class with more interfaces than its superclass may
+    // inherit another method than the latter did
+    bool checkInherited
+        = not isInterface and class_->super()->interfaceTable()
+          and cast<GcArray>(t, class_->super()->interfaceTable())->length()
+              != itable->length();
+
+    unsigned stride = isInterface ? 1 : 2;
     for (unsigned i = 0; i < itable->length(); i += stride) {
       vtable = cast<GcArray>(
           t, cast<GcClass>(t, itable->body()[i])->virtualTable());
@@ -2387,28 +2494,35 @@ GcList* addInterfaceMethods(Thread* t,
           GcTriple* n
               = hashMapFindNode(t, virtualMap, method, methodHash, methodEqual);
           if (n == 0) {
-            method = makeMethod(t,
-                                method->vmFlags(),
-                                method->returnCode(),
-                                method->parameterCount(),
-                                method->parameterFootprint(),
-                                method->flags(),
-                                (*virtualCount)++,
-                                0,
-                                0,
-                                method->name(),
-                                method->spec(),
-                                0,
-                                class_,
-                                method->code());
+            GcMethod* declaration
+                = findInheritedFromInterfaces(t, class_, method);
+            method = makeInterfaceMethod(t,
+                                         class_,
+                                         declaration ? declaration : method,
+                                         (*virtualCount)++);
 
             hashMapInsert(t, virtualMap, method, method, methodHash);
 
-            if (makeList) {
-              if (list == 0) {
-                list = vm::makeList(t, 0, 0, 0);
+            if (list == 0) {
+              list = vm::makeList(t, 0, 0, 0);
+            }
+            listAppend(t, list, method);
+          } else if (checkInherited) {
+            GcMethod* inherited = cast<GcMethod>(t, n->second());
+            if (inherited->class_() != class_
+                and findDeclaredVirtual(t, inherited->class_(), inherited)
+                    != inherited) {
+              GcMethod* declaration
+                  = findInheritedFromInterfaces(t, class_, inherited);
+              if (declaration and declaration->code() != inherited->code()) {
+                PROTECT(t, n);
+
+                method = makeInterfaceMethod(
+                    t, class_, declaration, inherited->offset());
+
+                n->setSecond(t, method);
+                listAppend(t, overrides, method);
               }
-              listAppend(t, list, method);
             }
           }
         }
@@ -2631,15 +2745,18 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
     class_->setMethodTable(t, methodTable);
   }
 
+  GcList* overrides = makeList(t, 0, 0, 0);
+  PROTECT(t, overrides);
+
   GcList* abstractVirtuals
-      = addInterfaceMethods(t, class_, virtualMap, &virtualCount, true);
+      = addInterfaceMethods(t, class_, virtualMap, &virtualCount, overrides);
 
   PROTECT(t, abstractVirtuals);
 
   bool populateInterfaceVtables = false;
 
   if (declaredVirtualCount == 0 and abstractVirtuals == 0
-      and (class_->flags() & ACC_INTERFACE) == 0) {
+      and overrides->size() == 0 and (class_->flags() & ACC_INTERFACE) == 0) {
     if (class_->super()) {
       // inherit virtual table from superclass
       class_->setVirtualTable(t, superVirtualTable);
@@ -2693,7 +2810,7 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
       }
     }
 
-    if (abstractVirtuals) {
+    if (abstractVirtuals or overrides->size()) {
       PROTECT(t, vtable);
 
       object originalMethodTable = class_->methodTable();
@@ -2708,7 +2825,9 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
       addendum->declaredMethodCount() = oldLength;
 
       GcArray* newMethodTable
-          = makeArray(t, oldLength + abstractVirtuals->size());
+          = makeArray(t,
+                      oldLength + overrides->size()
+                      + (abstractVirtuals ? abstractVirtuals->size() : 0));
 
       if (oldLength) {
         GcArray* mtable = cast<GcArray>(t, class_->methodTable());
@@ -2720,7 +2839,15 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
       mark(t, newMethodTable, ArrayBody, oldLength);
 
       unsigned mti = oldLength;
-      for (GcPair* p = cast<GcPair>(t, abstractVirtuals->front()); p;
+      for (GcPair* p = cast<GcPair>(t, overrides->front()); p;
+           p = cast<GcPair>(t, p->second())) {
+        newMethodTable->setBodyElement(t, mti++, p->first());
+      }
+
+      for (GcPair* p = abstractVirtuals
+                           ? cast<GcPair>(t, abstractVirtuals->front())
+                           : 0;
+           p;
            p = cast<GcPair>(t, p->second())) {
         newMethodTable->setBodyElement(t, mti++, p->first());
 
-- 
2.43.0


From 27dba164dbe5ff4c2ee15bb0f8deca5ed351a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 201/211] fix: of several unrelated default methods a class
 inherited an arbitrary one

---
 src/machine.cpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 4e2d011..8f94b09 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -2395,10 +2395,14 @@ bool isSuperinterface(Thread* t, GcClass* interface, GcClass* of)
 // Finds the declaration of the specified method which the specified
 // class or interface inherits from its superinterfaces: one no other
 // superinterface overrides, preferably one with an implementation.
+// There is a conflict if several such have one.
 GcMethod* findInheritedFromInterfaces(Thread* t,
                                       GcClass* class_,
-                                      GcMethod* method)
+                                      GcMethod* method,
+                                      bool* conflict)
 {
+  *conflict = false;
+
   GcArray* itable = cast<GcArray>(t, class_->interfaceTable());
   unsigned stride = (class_->flags() & ACC_INTERFACE) ? 1 : 2;
 
@@ -2418,11 +2422,12 @@ GcMethod* findInheritedFromInterfaces(Thread* t,
                    and findDeclaredVirtual(t, other, method);
     }
 
-    if (not overridden
-        and (result == 0
-             or ((result->flags() & ACC_ABSTRACT)
-                 and (m->flags() & ACC_ABSTRACT) == 0))) {
-      result = m;
+    if (not overridden) {
+      if (result == 0 or (result->flags() & ACC_ABSTRACT)) {
+        result = m;
+      } else if ((m->flags() & ACC_ABSTRACT) == 0) {
+        *conflict = true;
+      }
     }
   }
   return result;
@@ -2431,14 +2436,17 @@ GcMethod* findInheritedFromInterfaces(Thread* t,
 GcMethod* makeInterfaceMethod(Thread* t,
                               GcClass* class_,
                               GcMethod* method,
+                              bool conflict,
                               unsigned offset)
 {
+  // a method with conflicting implementations cannot be called, as if
+  // it had none
   return makeMethod(t,
                     method->vmFlags(),
                     method->returnCode(),
                     method->parameterCount(),
                     method->parameterFootprint(),
-                    method->flags(),
+                    method->flags() | (conflict ? ACC_ABSTRACT : 0),
                     offset,
                     0,
                     0,
@@ -2446,7 +2454,7 @@ GcMethod* makeInterfaceMethod(Thread* t,
                     method->spec(),
                     0,
                     class_,
-                    method->code());
+                    conflict ? 0 : method->code());
 }
 
 // Adds the methods which the class inherits from its superinterfaces
@@ -2494,11 +2502,13 @@ GcList* addInterfaceMethods(Thread* t,
           GcTriple* n
               = hashMapFindNode(t, virtualMap, method, methodHash, methodEqual);
           if (n == 0) {
+            bool conflict;
             GcMethod* declaration
-                = findInheritedFromInterfaces(t, class_, method);
+                = findInheritedFromInterfaces(t, class_, method, &conflict);
             method = makeInterfaceMethod(t,
                                          class_,
                                          declaration ? declaration : method,
+                                         conflict,
                                          (*virtualCount)++);
 
             hashMapInsert(t, virtualMap, method, method, methodHash);
@@ -2512,13 +2522,16 @@ GcList* addInterfaceMethods(Thread* t,
             if (inherited->class_() != class_
                 and findDeclaredVirtual(t, inherited->class_(), inherited)
                     != inherited) {
-              GcMethod* declaration
-                  = findInheritedFromInterfaces(t, class_, inherited);
-              if (declaration and declaration->code() != inherited->code()) {
+              bool conflict;
+              GcMethod* declaration = findInheritedFromInterfaces(
+                  t, class_, inherited, &conflict);
+              if (declaration
+                  and (conflict ? 0 : declaration->code())
+                      != inherited->code()) {
                 PROTECT(t, n);
 
                 method = makeInterfaceMethod(
-                    t, class_, declaration, inherited->offset());
+                    t, class_, declaration, conflict, inherited->offset());
 
                 n->setSecond(t, method);
                 listAppend(t, overrides, method);
-- 
2.43.0


From d9883383c8418eddbd12857a1d7f3c6cf6149cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:53 +0000
Subject: [PATCH 202/211] fix: package-private methods were overridden by
 methods of classes in other packages

---
 src/machine.cpp | 84 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 7 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 8f94b09..9ac3938 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -2548,6 +2548,41 @@ GcList* addInterfaceMethods(Thread* t,
   return 0;
 }
 
+bool samePackage(GcClass* a, GcClass* b)
+{
+  if (a->loader() != b->loader()) {
+    return false;
+  }
+
+  const char* an = reinterpret_cast<const char*>(a->name()->body().begin());
+  const char* bn = reinterpret_cast<const char*>(b->name()->body().begin());
+  const char* as = strrchr(an, '/');
+  const char* bs = strrchr(bn, '/');
+  return (as ? as - an : 0) == (bs ? bs - bn : 0)
+         and strncmp(an, bn, as ? as - an : 0) == 0;
+}
+
+// Whether a virtual method overrides another of the same name and
+// type in a superclass.
+bool canOverride(GcMethod* method, GcMethod* inherited)
+{
+  return (inherited->flags() & (ACC_PUBLIC | ACC_PROTECTED))
+         or samePackage(method->class_(), inherited->class_());
+}
+
+// Finds the method in the superclass's virtual table which the
+// specified one overrides.
+GcMethod* findOverridden(Thread* t, GcArray* table, GcMethod* method)
+{
+  for (unsigned i = table ? table->length() : 0; i > 0; --i) {
+    GcMethod* m = cast<GcMethod>(t, table->body()[i - 1]);
+    if (methodEqual(t, m, method) and canOverride(method, m)) {
+      return m;
+    }
+  }
+  return 0;
+}
+
 void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
 {
   PROTECT(t, class_);
@@ -2571,7 +2606,22 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
       virtualCount = superVirtualTable->length();
       for (unsigned i = 0; i < virtualCount; ++i) {
         object method = superVirtualTable->body()[i];
-        hashMapInsert(t, virtualMap, method, method, methodHash);
+        GcTriple* p
+            = hashMapFindNode(t, virtualMap, method, methodHash, methodEqual);
+        if (p) {
+          // methods of the same name and type which are only visible
+          // in different packages do not override each other
+          GcMethod* found = cast<GcMethod>(t, p->second());
+          GcClass* c = cast<GcMethod>(t, method)->class_();
+          while (c and c != found->class_()) {
+            c = c->super();
+          }
+          if (c) {
+            p->setSecond(t, method);
+          }
+        } else {
+          hashMapInsert(t, virtualMap, method, method, methodHash);
+        }
       }
     }
   }
@@ -2719,8 +2769,16 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
         GcTriple* p
             = hashMapFindNode(t, virtualMap, method, methodHash, methodEqual);
 
+        GcMethod* overridden = 0;
         if (p) {
-          method->offset() = cast<GcMethod>(t, p->first())->offset();
+          overridden = cast<GcMethod>(t, p->second());
+          if (not canOverride(method, overridden)) {
+            overridden = findOverridden(t, superVirtualTable, method);
+          }
+        }
+
+        if (overridden) {
+          method->offset() = overridden->offset();
 
           p->setSecond(t, method);
         } else {
@@ -2728,7 +2786,11 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
 
           listAppend(t, newVirtuals, method);
 
-          hashMapInsert(t, virtualMap, method, method, methodHash);
+          if (p) {
+            p->setSecond(t, method);
+          } else {
+            hashMapInsert(t, virtualMap, method, method, methodHash);
+          }
         }
 
         if (UNLIKELY((class_->flags() & ACC_INTERFACE) == 0
@@ -2809,10 +2871,18 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
 
       if (superVirtualTable) {
         for (; i < superVirtualTable->length(); ++i) {
-          object method = superVirtualTable->body()[i];
-          method = hashMapFind(t, virtualMap, method, methodHash, methodEqual);
-
-          vtable->setBodyElement(t, i, method);
+          GcMethod* inherited
+              = cast<GcMethod>(t, superVirtualTable->body()[i]);
+          GcMethod* method = cast<GcMethod>(
+              t,
+              hashMapFind(t, virtualMap, inherited, methodHash, methodEqual));
+
+          vtable->setBodyElement(
+              t,
+              i,
+              method->class_() == class_ and canOverride(method, inherited)
+                  ? method
+                  : inherited);
         }
       }
 
-- 
2.43.0


From 736a49728c2b6346cf3a4c41b6812f6f499f54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:48 +0000
Subject: [PATCH 203/211] fix: super calls of package-private methods ran
 overriding methods of other packages' slots

---
 src/avian/process.h | 20 ++++++++++++++++++++
 src/compile.cpp     |  4 ++--
 src/interpret.cpp   |  2 +-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/avian/process.h b/src/avian/process.h
index 531927f..f5f60f6 100644
--- a/src/avian/process.h
+++ b/src/avian/process.h
@@ -52,6 +52,26 @@ inline bool isSpecialMethod(Thread* t, GcMethod* method, GcClass* class_)
          and isSuperclass(t, method->class_(), class_);
 }
 
+// Finds the method which a super call of the specified one runs: that
+// which class_ declares or inherits.
+inline GcMethod* findSpecialMethod(Thread* t, GcMethod* method, GcClass* class_)
+{
+  GcMethod* result = findVirtualMethod(t, method, class_);
+  if (UNLIKELY((method->flags() & (ACC_PUBLIC | ACC_PROTECTED)) == 0)) {
+    // a method of another package may have the same name and type, yet
+    // not override the specified one
+    GcArray* table = cast<GcArray>(t, class_->virtualTable());
+    for (unsigned i = 0; i < table->length(); ++i) {
+      GcMethod* m = cast<GcMethod>(t, table->body()[i]);
+      if (methodEqual(t, m, method)
+          and isSuperclass(t, result->class_(), m->class_())) {
+        result = m;
+      }
+    }
+  }
+  return result;
+}
+
 void resolveNative(Thread* t, GcMethod* method);
 
 int findLineNumber(Thread* t, GcMethod* method, unsigned ip);
diff --git a/src/compile.cpp b/src/compile.cpp
index 7971fce..9538be9 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2528,7 +2528,7 @@ int64_t findSpecialMethodFromReference(MyThread* t, GcPair* pair)
 
   GcClass* class_ = cast<GcMethod>(t, pair->first())->class_();
   if (isSpecialMethod(t, target, class_)) {
-    target = findVirtualMethod(t, target, class_->super());
+    target = findSpecialMethod(t, target, class_->super());
   }
 
   return prepareMethodForCall(t, target);
@@ -5504,7 +5504,7 @@ loop:
       if (LIKELY(target)) {
         GcClass* class_ = context->method->class_();
         if (isSpecialMethod(t, target, class_)) {
-          target = findVirtualMethod(t, target, class_->super());
+          target = findSpecialMethod(t, target, class_->super());
         }
 
         bool tailCall = isTailCall(t, code, ip, context->method, target);
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 5b1541b..b3eed12 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -2060,7 +2060,7 @@ loop:
 
         initClass(t, class_);
 
-        method = findVirtualMethod(t, m, class_);
+        method = findSpecialMethod(t, m, class_);
       } else {
         method = m;
       }
-- 
2.43.0


From 5aee4d05d92686783251b54b806d942c40757cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 204/211] fix: a thread waiting for data on a socket kept all
 others from collecting garbage

The natives of java.net.Socket waited in send and recv without leaving
the active state, with pointers into the heap.  A collection started by
another thread could not begin until data arrived, which it never did
when that data was to come from this process.
---
 classpath/java-net.cpp | 57 ++++++++++++++++++++++++++++--------------
 classpath/sockets.cpp  | 19 ++++++++------
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/classpath/java-net.cpp b/classpath/java-net.cpp
index 71a128a..e30dd77 100644
--- a/classpath/java-net.cpp
+++ b/classpath/java-net.cpp
@@ -68,28 +68,47 @@ extern "C" JNIEXPORT void JNICALL
   close_input(e, static_cast<SOCKET>(sock));
 }
 
+// The data goes through a buffer outside the heap: these calls may block,
+// and meanwhile another thread may need to collect garbage.
+
 extern "C" JNIEXPORT void JNICALL
-    Avian_java_net_Socket_send(vm::Thread* t, vm::object, uintptr_t* arguments)
-{ /* SOCKET s, object buffer_obj, int start_pos, int count  */
-  SOCKET& s = *(reinterpret_cast<SOCKET*>(&arguments[0]));
-  vm::GcByteArray* buffer_obj = vm::cast<vm::GcByteArray>(
-      t, reinterpret_cast<vm::object>(arguments[2]));
-  int32_t& start_pos = *(reinterpret_cast<int32_t*>(&arguments[3]));
-  int32_t& count = *(reinterpret_cast<int32_t*>(&arguments[4]));
-  char* buffer = reinterpret_cast<char*>(&buffer_obj->body()[start_pos]);
-  avian::classpath::sockets::send((JNIEnv*)t, s, buffer, count);
+    Java_java_net_Socket_send(JNIEnv* e,
+                              jclass,
+                              jlong sock,
+                              jbyteArray array,
+                              jint start,
+                              jint count)
+{
+  char* buffer = static_cast<char*>(allocate(e, count));
+  if (buffer) {
+    e->GetByteArrayRegion(
+        array, start, count, reinterpret_cast<jbyte*>(buffer));
+    if (not e->ExceptionCheck()) {
+      send(e, static_cast<SOCKET>(sock), buffer, count);
+    }
+    free(buffer);
+  }
 }
 
-extern "C" JNIEXPORT int64_t JNICALL
-    Avian_java_net_Socket_recv(vm::Thread* t, vm::object, uintptr_t* arguments)
-{ /* SOCKET s, object buffer_obj, int start_pos, int count  */
-  SOCKET& s = *(reinterpret_cast<SOCKET*>(&arguments[0]));
-  vm::GcByteArray* buffer_obj = vm::cast<vm::GcByteArray>(
-      t, reinterpret_cast<vm::object>(arguments[2]));
-  int32_t& start_pos = *(reinterpret_cast<int32_t*>(&arguments[3]));
-  int32_t& count = *(reinterpret_cast<int32_t*>(&arguments[4]));
-  char* buffer = reinterpret_cast<char*>(&buffer_obj->body()[start_pos]);
-  return avian::classpath::sockets::recv((JNIEnv*)t, s, buffer, count);
+extern "C" JNIEXPORT jint JNICALL
+    Java_java_net_Socket_recv(JNIEnv* e,
+                              jclass,
+                              jlong sock,
+                              jbyteArray array,
+                              jint start,
+                              jint count)
+{
+  char* buffer = static_cast<char*>(allocate(e, count));
+  int length = 0;
+  if (buffer) {
+    length = recv(e, static_cast<SOCKET>(sock), buffer, count);
+    if (length > 0 and not e->ExceptionCheck()) {
+      e->SetByteArrayRegion(
+          array, start, length, reinterpret_cast<jbyte*>(buffer));
+    }
+    free(buffer);
+  }
+  return length;
 }
 
 extern "C" JNIEXPORT jint JNICALL
diff --git a/classpath/sockets.cpp b/classpath/sockets.cpp
index becccfd..497c1d3 100644
--- a/classpath/sockets.cpp
+++ b/classpath/sockets.cpp
@@ -127,13 +127,18 @@ SOCKET accept(JNIEnv* e, SOCKET sock, long* client_addr, short* client_port)
 
 void send(JNIEnv* e, SOCKET sock, const char* buff_ptr, int buff_size)
 {
-  if (SOCKET_ERROR == ::send(sock, buff_ptr, buff_size, 0)) {
-    char buf[255];
-    sprintf(buf,
-            "Can't send data through the socket. System error: %d",
-            last_socket_error());
-    throwNew(e, "java/io/IOException", buf);
-    return;
+  while (buff_size > 0) {
+    int length = ::send(sock, buff_ptr, buff_size, 0);
+    if (SOCKET_ERROR == length) {
+      char buf[255];
+      sprintf(buf,
+              "Can't send data through the socket. System error: %d",
+              last_socket_error());
+      throwNew(e, "java/io/IOException", buf);
+      return;
+    }
+    buff_ptr += length;
+    buff_size -= length;
   }
 }
 
-- 
2.43.0


From 15776422a981ee7559a2b5a5a229c89f48f89dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 205/211] fix: the streams of sockets read bytes over 127 as
 negative numbers and waited for whole buffers

InputStream.read returned the byte signed, so that 255 was the end of the
stream.  read(byte[], int, int) was not overridden, and the inherited one
reads byte by byte until the buffer is full.
---
 classpath/java/net/Socket.java | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/classpath/java/net/Socket.java b/classpath/java/net/Socket.java
index 9a32b88..ce6476d 100644
--- a/classpath/java/net/Socket.java
+++ b/classpath/java/net/Socket.java
@@ -81,16 +81,20 @@ public class Socket implements Closeable, AutoCloseable {
 			if (size == 0) {
 				return -1;
 			}
-			return buffer[0];
+			return buffer[0] & 0xff;
 		}
 		
 		@Override
 		public int read(byte[] buffer) throws IOException {
-			if(buffer.length == 0) return 0; //spec says return 0 if buffer length is zero.
-			int fullSize = buffer.length;
+			return read(buffer, 0, buffer.length);
+		}
+		
+		@Override
+		public int read(byte[] buffer, int offset, int length) throws IOException {
+			if(offset < 0 || length < 0 || length > buffer.length - offset) throw new IndexOutOfBoundsException();
+			if(length == 0) return 0; //spec says return 0 if buffer length is zero.
 			int size;
-			size = recv(sock, buffer, 0, Math.min(fullSize, Socket.BUFFER_SIZE));
-			fullSize -= size;
+			size = recv(sock, buffer, offset, Math.min(length, Socket.BUFFER_SIZE));
 			//removed loop, because otherwise interactive protocols will not work.
 			if(size < 0) throw new IOException("Error while reading stream"); //as the manpage of recv says, a value below zero indicates an error.
 			if(size == 0) return -1; // if the stream is closed (size == 0), then return -1 to indicate end of stream. 
@@ -126,8 +130,14 @@ public class Socket implements Closeable, AutoCloseable {
 		
 		@Override
 		public void write(byte[] buffer) throws IOException {
-			int fullSize = buffer.length;
-			int index = 0;
+			write(buffer, 0, buffer.length);
+		}
+		
+		@Override
+		public void write(byte[] buffer, int offset, int length) throws IOException {
+			if(offset < 0 || length < 0 || length > buffer.length - offset) throw new IndexOutOfBoundsException();
+			int fullSize = length;
+			int index = offset;
 			int size;
 			do {
 				size = Math.min(fullSize, Socket.BUFFER_SIZE);
-- 
2.43.0


From 1cc51398c469966bea32f6f05a28efcde702d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 206/211] fix: closing a socket did not close its file
 descriptor

Socket.close only shut the connection down, so that a program which opens
and closes sockets ran out of descriptors.
---
 classpath/java/net/Socket.java | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/classpath/java/net/Socket.java b/classpath/java/net/Socket.java
index ce6476d..a4230d2 100644
--- a/classpath/java/net/Socket.java
+++ b/classpath/java/net/Socket.java
@@ -62,7 +62,7 @@ public class Socket implements Closeable, AutoCloseable {
 		@Override
 		public void close() throws IOException {
 			if (!closed) {
-				closeInput(sock);
+				if (!Socket.this.closed) closeInput(sock);
 				closed = true;
 			}
 			super.close();
@@ -77,6 +77,7 @@ public class Socket implements Closeable, AutoCloseable {
 		@Override
 		public int read() throws IOException {
 			byte[] buffer = new byte[1];
+			checkOpen();
 			int size = recv(sock, buffer, 0, 1);
 			if (size == 0) {
 				return -1;
@@ -93,6 +94,7 @@ public class Socket implements Closeable, AutoCloseable {
 		public int read(byte[] buffer, int offset, int length) throws IOException {
 			if(offset < 0 || length < 0 || length > buffer.length - offset) throw new IndexOutOfBoundsException();
 			if(length == 0) return 0; //spec says return 0 if buffer length is zero.
+			checkOpen();
 			int size;
 			size = recv(sock, buffer, offset, Math.min(length, Socket.BUFFER_SIZE));
 			//removed loop, because otherwise interactive protocols will not work.
@@ -109,7 +111,7 @@ public class Socket implements Closeable, AutoCloseable {
 		@Override
 		public void close() throws IOException {
 			if (!closed) {
-				closeOutput(sock);
+				if (!Socket.this.closed) closeOutput(sock);
 				closed = true;
 			}
 			super.close();
@@ -125,6 +127,7 @@ public class Socket implements Closeable, AutoCloseable {
 		public void write(int c) throws IOException {
 			byte[] res = new byte[1];
 			res[0] = (byte)c;
+			checkOpen();
 			send(sock, res, 0, 1);
 		}
 		
@@ -136,6 +139,7 @@ public class Socket implements Closeable, AutoCloseable {
 		@Override
 		public void write(byte[] buffer, int offset, int length) throws IOException {
 			if(offset < 0 || length < 0 || length > buffer.length - offset) throw new IndexOutOfBoundsException();
+			checkOpen();
 			int fullSize = length;
 			int index = offset;
 			int size;
@@ -150,12 +154,14 @@ public class Socket implements Closeable, AutoCloseable {
 	}
 
 	private long sock;
+	private boolean closed = true;
 	private SocketInputStream inputStream;
 	private SocketOutputStream outputStream;
 	
 	public Socket() throws IOException {
 		Socket.init();
 		sock = create();
+		closed = false;
 		inputStream = new SocketInputStream();
 		outputStream = new SocketOutputStream();
 	}
@@ -170,13 +176,23 @@ public class Socket implements Closeable, AutoCloseable {
 	
 	public Socket(InetAddress address, int port) throws IOException {
 		this();
-		connect(sock, address.getRawAddress(), (short)port);
+		boolean success = false;
+		try {
+			connect(sock, address.getRawAddress(), (short)port);
+			success = true;
+		} finally {
+			if (!success) close();
+		}
 	}
 	
 	public Socket(String host, int port) throws UnknownHostException, IOException {
 		this(InetAddress.getByName(host), port);
 	}
 	
+	private void checkOpen() throws IOException {
+		if (closed) throw new SocketException("Socket is closed");
+	}
+	
 	public void bind(SocketAddress bindpoint) throws IOException {
 		if (bindpoint instanceof InetSocketAddress) {
 			InetSocketAddress inetBindpoint = (InetSocketAddress)bindpoint;
@@ -188,7 +204,15 @@ public class Socket implements Closeable, AutoCloseable {
 
 	@Override
 	public void close() throws IOException {
-		close(sock);
+		synchronized (this) {
+			if (closed) return;
+			closed = true;
+		}
+		try {
+			close(sock);
+		} finally {
+			abort(sock);
+		}
 	}
 	
 	public void shutdownInput() throws IOException {
-- 
2.43.0


From 380769b430fe4850ccae5751d44489b663b3e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 207/211] fix: server socket channels lost a socket at each
 accept, and stayed open when closed

accept made a socket of its own before it put the accepted one in its
place.  In non-blocking mode it threw an exception instead of returning
null when no connection was waiting.  close left isOpen true, so that
selectors went on using the closed descriptor.
---
 classpath/java-nio.cpp                              |  2 +-
 .../java/nio/channels/ServerSocketChannel.java      | 13 ++++++++++---
 classpath/java/nio/channels/SocketChannel.java      | 10 +++++++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/classpath/java-nio.cpp b/classpath/java-nio.cpp
index 9f8a44a..d90da49 100644
--- a/classpath/java-nio.cpp
+++ b/classpath/java-nio.cpp
@@ -307,7 +307,7 @@ int doAccept(JNIEnv* e, int s)
   int r = ::accept(s, &address, &length);
   if (r >= 0) {
     return r;
-  } else if (errno != EINTR) {
+  } else if (errno != EINTR and not eagain()) {
     throwIOException(e);
   }
   return -1;
diff --git a/classpath/java/nio/channels/ServerSocketChannel.java b/classpath/java/nio/channels/ServerSocketChannel.java
index 6f0d601..9c5a117 100644
--- a/classpath/java/nio/channels/ServerSocketChannel.java
+++ b/classpath/java/nio/channels/ServerSocketChannel.java
@@ -39,16 +39,20 @@ public class ServerSocketChannel extends SelectableChannel {
   }
 
   public SelectableChannel configureBlocking(boolean v) throws IOException {
-    return channel.configureBlocking(v);
+    channel.configureBlocking(v);
+    return this;
   }
 
   public void close() throws IOException {
+    super.close();
     channel.close();
   }
 
   public SocketChannel accept() throws IOException {
-    SocketChannel c = new SocketChannel();
-    c.socket = doAccept();
+    int s = doAccept();
+    if (s < 0) return null;
+
+    SocketChannel c = new SocketChannel(s);
     c.connected = true;
     return c;
   }
@@ -63,6 +67,9 @@ public class ServerSocketChannel extends SelectableChannel {
       if (s != -1) {
         return s;
       }
+      if (! channel.isBlocking()) {
+        return -1;
+      }
       // todo: throw ClosedByInterruptException if this thread was
       // interrupted during the accept call
     }
diff --git a/classpath/java/nio/channels/SocketChannel.java b/classpath/java/nio/channels/SocketChannel.java
index f551eb1..13bb2b9 100644
--- a/classpath/java/nio/channels/SocketChannel.java
+++ b/classpath/java/nio/channels/SocketChannel.java
@@ -22,11 +22,19 @@ public class SocketChannel extends SelectableChannel
 {
   public static final int InvalidSocket = -1;
 
-  int socket = makeSocket();
+  int socket;
   boolean connected = false;
   boolean readyToConnect = false;
   boolean blocking = true;
 
+  SocketChannel() {
+    this(makeSocket());
+  }
+
+  SocketChannel(int socket) {
+    this.socket = socket;
+  }
+
   public static SocketChannel open() throws IOException {
     Socket.init();
 
-- 
2.43.0


From 0ffcf0236a32012d749091a9e7c5936b56eb5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 208/211] fix: SocketChannel.finishConnect lost the descriptors
 of a selector at each call

The selector it uses was never closed.
---
 classpath/java/nio/channels/SocketChannel.java | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/classpath/java/nio/channels/SocketChannel.java b/classpath/java/nio/channels/SocketChannel.java
index 13bb2b9..86d55f9 100644
--- a/classpath/java/nio/channels/SocketChannel.java
+++ b/classpath/java/nio/channels/SocketChannel.java
@@ -81,13 +81,17 @@ public class SocketChannel extends SelectableChannel
     if (! connected) {
       while (! readyToConnect) {
         Selector selector = Selector.open();
-        SelectionKey key = register(selector, SelectionKey.OP_CONNECT, null);
-
-        if (blocking) {
-          selector.select();
-        } else {
-          selector.selectNow();
-          break;
+        try {
+          SelectionKey key = register(selector, SelectionKey.OP_CONNECT, null);
+
+          if (blocking) {
+            selector.select();
+          } else {
+            selector.selectNow();
+            break;
+          }
+        } finally {
+          selector.close();
         }
       }
 
-- 
2.43.0


From 569d0684a7b82287df3c1ca04de7b4946282595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 209/211] fix: datagram channels could neither send nor receive
 empty packets

send and write did nothing for an empty buffer, and receive reported an
empty packet as if there were none.  The first byte of the address of a
sender was taken as signed.
---
 classpath/java-nio.cpp                           | 8 ++------
 classpath/java/nio/channels/DatagramChannel.java | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/classpath/java-nio.cpp b/classpath/java-nio.cpp
index d90da49..1e48918 100644
--- a/classpath/java-nio.cpp
+++ b/classpath/java-nio.cpp
@@ -328,7 +328,7 @@ int doRecv(int fd, void* buffer, size_t count, int32_t* host, int32_t* port)
   socklen_t length = sizeof(address);
   int r = recvfrom(fd, static_cast<char*>(buffer), count, 0, &address, &length);
 
-  if (r > 0) {
+  if (r >= 0) {
     sockaddr_in a;
     memcpy(&a, &address, length);
     *host = ntohl(a.sin_addr.s_addr);
@@ -573,12 +573,9 @@ extern "C" JNIEXPORT jint JNICALL
   }
 
   if (r < 0) {
-    if (eagain()) {
-      return 0;
-    } else {
+    if (not eagain()) {
       throwIOException(e);
     }
-  } else if (r == 0) {
     return -1;
   } else {
     jint jhost = host;
@@ -586,7 +583,6 @@ extern "C" JNIEXPORT jint JNICALL
     jint jport = port;
     e->SetIntArrayRegion(address, 1, 1, &jport);
   }
-
   return r;
 }
 
diff --git a/classpath/java/nio/channels/DatagramChannel.java b/classpath/java/nio/channels/DatagramChannel.java
index f0a2b39..f129036 100644
--- a/classpath/java/nio/channels/DatagramChannel.java
+++ b/classpath/java/nio/channels/DatagramChannel.java
@@ -105,8 +105,6 @@ public class DatagramChannel extends SelectableChannel
   }
 
   public int write(ByteBuffer b) throws IOException {
-    if (b.remaining() == 0) return 0;
-
     byte[] array = b.array();
     if (array == null) throw new NullPointerException();
 
@@ -138,7 +136,7 @@ public class DatagramChannel extends SelectableChannel
       (socket, array, b.arrayOffset() + b.position(), b.remaining(), blocking,
        address);
 
-    if (c > 0) {
+    if (c >= 0) {
       b.position(b.position() + c);
 
       return new InetSocketAddress(ipv4ToString(address[0]), address[1]);
@@ -148,8 +146,6 @@ public class DatagramChannel extends SelectableChannel
   }
 
   public int send(ByteBuffer b, SocketAddress address) throws IOException {
-    if (b.remaining() == 0) return 0;
-
     InetSocketAddress inetAddress;
     try {
       inetAddress = (InetSocketAddress) address;
@@ -175,7 +171,7 @@ public class DatagramChannel extends SelectableChannel
   private static String ipv4ToString(int address) {
     StringBuilder sb = new StringBuilder();
 
-    sb.append( address >> 24        ).append('.')
+    sb.append((address >> 24) & 0xFF).append('.')
       .append((address >> 16) & 0xFF).append('.')
       .append((address >>  8) & 0xFF).append('.')
       .append( address        & 0xFF);
-- 
2.43.0


From e848778cf105605d907a54333bc85caafad1152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:16 +0000
Subject: [PATCH 210/211] fix: getInputStream and getOutputStream of sockets
 returned private classes

Classes compiled against another class library could not call them.
---
 classpath/java/net/Socket.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/net/Socket.java b/classpath/java/net/Socket.java
index a4230d2..1077cf1 100644
--- a/classpath/java/net/Socket.java
+++ b/classpath/java/net/Socket.java
@@ -166,11 +166,11 @@ public class Socket implements Closeable, AutoCloseable {
 		outputStream = new SocketOutputStream();
 	}
 	
-	public SocketInputStream getInputStream() {
+	public InputStream getInputStream() {
 		return inputStream;
 	}
 	
-	public SocketOutputStream getOutputStream() {
+	public OutputStream getOutputStream() {
 		return outputStream;
 	}
 	
-- 
2.43.0


From 106ed3fe0d2b2d698ec0d99823bf8dad1c382885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:15 +0000
Subject: [PATCH 211/211] fix: a selector overlooked a channel which got the
 descriptor of a closed one

Removing the key of the closed channel cleared the interest of the new
channel as well, if it came later in the set of keys.
---
 .../java/nio/channels/SocketSelector.java     | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/classpath/java/nio/channels/SocketSelector.java b/classpath/java/nio/channels/SocketSelector.java
index c17d2af..340de5d 100644
--- a/classpath/java/nio/channels/SocketSelector.java
+++ b/classpath/java/nio/channels/SocketSelector.java
@@ -74,23 +74,24 @@ class SocketSelector extends Selector {
 
     if (clearWoken()) interval = -1;
 
-    int max=0;
+    // the descriptor of a closed channel may belong to another one by now
     for (Iterator<SelectionKey> it = keys.iterator();
          it.hasNext();)
     {
-      SelectionKey key = it.next();
-      SelectableChannel c = key.channel();
-      int socket = c.socketFD();
-      if (c.isOpen()) {
-        key.readyOps(0);
-        max = natSelectUpdateInterestSet
-          (socket, key.interestOps(), state, max);
-      } else {
-        natSelectClearAll(socket, state);
+      SelectableChannel c = it.next().channel();
+      if (! c.isOpen()) {
+        natSelectClearAll(c.socketFD(), state);
         it.remove();
       }
     }
 
+    int max=0;
+    for (SelectionKey key : keys) {
+      key.readyOps(0);
+      max = natSelectUpdateInterestSet
+        (key.channel().socketFD(), key.interestOps(), state, max);
+    }
+
     int r = natDoSocketSelect(state, max, interval);
 
     if (r > 0) {
-- 
2.43.0

