From f8d76899f16ab9b66e4c6a9ddc9dfef4e1c7ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 01/67] fix: coda_base58_encode_alloc returns the length of the
 text, not the size of the buffer

---
 coda/base58.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/base58.c b/coda/base58.c
index 56d863d..cb5bad9 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -1,5 +1,6 @@
 #include "base58.h"
 #include <stdlib.h>
+#include <string.h>
 #include <limits.h>
 #include <stdio.h>
 
@@ -75,7 +76,7 @@ size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
         return outlen;
 
     coda_base58_encode (in, inlen, *out, outlen);
-    return outlen - 1;
+    return strlen (*out);
 }
 
 #define B58(_)                 \
-- 
2.43.0


From 9b03c77cd17e5b2dc21add84c0fe77ad459483f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 02/67] fix: coda_base58_decode reports an invalid first
 character as an error

---
 coda/base58.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index cb5bad9..fe86096 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -238,7 +238,7 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
     char *b256_curr = NULL;
     b256_begin = b256_curr = (char*)calloc (b256len, sizeof(char));
     if (!b256_begin)
-        return -_inlen + inlen;
+        return -_inlen + (ssize_t) inlen - 1;
 
     while (inlen)
     {
@@ -261,7 +261,7 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
     if (inlen != 0)
     {
         free(b256_begin);
-        return -_inlen + inlen;
+        return -_inlen + (ssize_t) inlen - 1; // position of the bad character, counted from 1
     }
 
     while (b256len && !*b256_curr)
-- 
2.43.0


From 11e38837849c67dd7ccd85a11a8310ac0c45618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 03/67] fix: coda_url_escape handles non-ASCII bytes and small
 destinations

---
 coda/url.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 1b5078b..04e51b1 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -264,23 +264,22 @@ std::string coda_urldec(const std::string &u)
 
 void coda_url_escape(const char *s, char *dest, size_t sz)
 {
+	if (!sz) return;
+
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	sz -= 3;
-	while (*s && (ptr < sz))
+	while (*s)
 	{
-		//if (*s & 0x80 != 0)
-		if (table_urlenc[*s >> 5] & (1 << (*s & 0x1f)))
-		{
-			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", *s);
-		}
-		else if (*s == ' ')
+		const unsigned char c = *s;
+		if (table_urlenc[c >> 5] & (1u << (c & 0x1f)))
 		{
-			dest[ptr++] = '+';
+			if (sz - ptr <= 3) break;
+			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", c);
 		}
 		else
 		{
-			dest[ptr++] = *s;
+			if (sz - ptr <= 1) break;
+			dest[ptr++] = c == ' ' ? '+' : c;
 		}
 
 		s++;
-- 
2.43.0


From b126af68b5445c2e0a99abdaead1552a03a6f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 04/67] fix: coda_url_unescape does not overrun destinations of
 less than two bytes

---
 coda/url.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 04e51b1..a1638f0 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -288,9 +288,11 @@ void coda_url_escape(const char *s, char *dest, size_t sz)
 
 void coda_url_unescape(const char *s, char *dest, size_t sz)
 {
+	if (!sz) return;
+
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	while (*s && (ptr < sz - 2))
+	while (*s && (ptr + 2 < sz))
 	{
 		if (*s == '+')
 		{
-- 
2.43.0


From 99b69594c8e49b9560f6046c61a41f77b2e79339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 05/67] fix: coda_url_unescape takes exactly four digits of a
 %u escape and keeps U+007F

---
 coda/url.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index a1638f0..ba1b4c7 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -310,18 +310,20 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 			ptr++;
 			s += 3;
 		}
-		else if ((*s == '%') && (s[1] == 'u') && isxdigit(s[2]))
+		else if ((*s == '%') && (s[1] == 'u') && isxdigit(s[2]) && isxdigit(s[3]) && isxdigit(s[4]) && isxdigit(s[5]))
 		{
-			char *ns;
-			uint32_t c = strtol(s + 2, &ns, 16);
-			s = ns;
+			char xnum[5];
+			memcpy(xnum, s + 2, 4);
+			xnum[4] = 0;
+			uint32_t c = strtol(xnum, 0, 16);
+			s += 6;
 			/* doing only russian letters */
 			if ((c < 0x0800) && (c > 0x7F))
 			{
 				dest[ptr++] = ((c >> 6) | 0xc0);
 				dest[ptr++] = ((c & 0x3f) | 0x80);
 			}
-			else if (c < 0x7F)
+			else if (c <= 0x7F)
 			{
 				dest[ptr++] = c;
 			}
-- 
2.43.0


From 14b6d5e2f6475e84a4e2b758fd96bf05a71e28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 06/67] fix: coda_url_preunescape stays inside its destination
 and keeps \x escapes of ASCII bytes

---
 coda/url.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index ba1b4c7..0b9cdcf 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -351,8 +351,10 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 
 void coda_url_preunescape(const char* s, char* dest, size_t sz)
 {
+	if (!sz) return;
+
 	size_t ptr = 0;
-	while (*s && (ptr < sz + 5))
+	while (*s && (ptr + 1 < sz))
 	{
 		if ((*s == '%') && isxdigit(s[1]) && isxdigit(s[2]))
 		{
@@ -368,7 +370,8 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			}
 			else
 			{
-				if (ptr + 4 < sz) memcpy(dest + ptr, s, 3);
+				if (ptr + 3 >= sz) break;
+				memcpy(dest + ptr, s, 3);
 				ptr += 3;
 			}
 			s += 3;
@@ -387,7 +390,9 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			}
 			else
 			{
-				if (ptr + 3 < sz) memcpy(dest + ptr, s, 4);
+				if (ptr + 4 >= sz) break;
+				memcpy(dest + ptr, s, 4);
+				ptr += 4;
 			}
 			s += 4;
 		}
-- 
2.43.0


From 5943fe5476c6f60c8a366493d8bac4a31f63b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 07/67] fix: coda_revnspn and coda_revxspn do not count the
 byte that ends the run

---
 coda/string.c       | 12 ++++++++----
 coda/url_parser.cpp |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index c8d8502..99bca83 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -208,14 +208,16 @@ size_t coda_revnspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (*p == *x) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
@@ -225,14 +227,16 @@ size_t coda_revxspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (tolower(*p) == tolower(*x)) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 7a0ab27..2113e1c 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -202,9 +202,9 @@ int coda_url::assign_anchor(char *beg, uint32_t flags)
 
 	if (end != (p = end - coda_revnspn(beg, ".", end - beg)))
 	{
-		memmove(p + 1, end, val_str + val_len - end);
-		val_len -= end - (p + 1);
-			end -= end - (p + 1);
+		memmove(p, end, val_str + val_len - end);
+		val_len -= end - p;
+			end -= end - p;
 	}
 
 	p = end;
-- 
2.43.0


From a48e7b93daaa2748125e22d8198e59c8e87c3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 08/67] fix: case-insensitive character search finds bytes
 above 0x7F

---
 coda/string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index 99bca83..b3f5f3b 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -15,7 +15,7 @@ char *coda_strxchr(const char *s, char c, size_t len)
 	const char *e = s + len;
 	for (c = tolower(c); s < e; ++s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (c == (char) tolower(*s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -35,7 +35,7 @@ char *coda_revxchr(const char *s, char c, size_t len)
 	const char *b = s - 1;
 	for (s = b + len, c = tolower(c); s > b; --s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (c == (char) tolower(*s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -55,7 +55,7 @@ size_t coda_strxchp(const char *s, char c, size_t len)
 	size_t p = 0;
 	for (c = tolower(c); p < len; ++p)
 	{
-		if (c == tolower(s[p])) return p;
+		if (c == (char) tolower(s[p])) return p;
 	}
 	return len;
 }
-- 
2.43.0


From 192e010e80f1f7a61b1a2e9c31811847c0466dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 09/67] fix: coda_strnstr and coda_strxstr search texts that
 are empty or start with a zero byte

---
 coda/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index b3f5f3b..bc1e6be 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -91,7 +91,7 @@ char *coda_strnstr(const char *s, const char *n, size_t len)
 	const char *w;
 	const char *x;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 
 	if (len < (nsz = strlen(n))) return NULL;
@@ -123,7 +123,7 @@ char *coda_strxstr(const char *s, const char *n, size_t len)
 	const char *en;
 	size_t nsz;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 	if (len < (nsz = strlen(n))) return NULL;
 
-- 
2.43.0


From 09ffe3dbd1969f29b0e3508b785bd05bec2d0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 10/67] fix: coda_get_uint64set adds nothing for pieces that
 are not numbers

---
 coda/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 890671c..5ae73a1 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -157,8 +157,10 @@ void coda_get_uint64set(const char* str, std::set<uint64_t>& result)
 	while (i)
 	{
 		uint64_t temp;
-		sscanf(i, "%" PRIu64, &temp);
-		result.insert(temp);
+		if (1 == sscanf(i, "%" PRIu64, &temp))
+		{
+			result.insert(temp);
+		}
 		i = strchr(i, ',');
 		if (i)
 		{
-- 
2.43.0


From 5880ea0b719948116aac422042348a85e743cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 11/67] fix: coda_split_string does not split at zero bytes

---
 coda/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 5ae73a1..74936fa 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -205,7 +205,7 @@ std::vector<std::string> coda_split_string(const char *src, size_t size, const c
 
 	for (; p < e; ++p)
 	{
-		if (NULL != strchr(delimiters, *p))
+		if (*p && NULL != strchr(delimiters, *p))
 		{
 			if (prev_ptr < p || !ignore_empty)
 			{
-- 
2.43.0


From 91886215e95ac46db28e7c678b7fdfab9c8c65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 12/67] fix: coda_strprintf keeps zero bytes of the formatted
 text

---
 coda/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 74936fa..9759370 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -23,7 +23,7 @@ std::string coda_strprintf(const char *fmt, ...)
 		va_end(ap);
 	}
 
-	return BUF;
+	return std::string(BUF, bytes < 0 ? 0 : bytes);
 }
 
 int coda_strappend(std::string& out, const char* fmt, ...)
-- 
2.43.0


From 39bb79c4c1df8ba57b5c7a76c72608fae08fc0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 13/67] fix: coda_strnappend and coda_strnprintf accept limits
 beyond INT_MAX

---
 coda/string.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/coda/string.cpp b/coda/string.cpp
index 9759370..d75dedd 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -68,6 +68,16 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 	}
 	else
 	{
+		va_list aq;
+		va_copy(aq, ap);
+		bytes = vsnprintf(NULL, 0, fmt, aq);
+		va_end(aq);
+
+		if (0 <= bytes && (size_t) bytes < num)
+		{
+			num = bytes;
+		}
+
 		char* BUF = new char [num + 1];
 
 		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
@@ -107,6 +117,16 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 	}
 	else
 	{
+		va_list aq;
+		va_copy(aq, ap);
+		bytes = vsnprintf(NULL, 0, fmt, aq);
+		va_end(aq);
+
+		if (0 <= bytes && (size_t) bytes < num)
+		{
+			num = bytes;
+		}
+
 		char* BUF = new char [num + 1];
 
 		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
-- 
2.43.0


From ae090dc7291b245593d3a6d8d6d583f62325c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 14/67] fix: URL parsing does not look for prefixes beyond the
 end of the text

---
 coda/url_parser.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 2113e1c..0f0f81e 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -6,6 +6,12 @@
 #include "string.h"
 #include "url_parser.hpp"
 
+/* does [u] of [sz] bytes start with [prefix], ignoring case? */
+static bool starts_with(const char *u, size_t sz, const char *prefix, size_t prefix_len)
+{
+	return sz >= prefix_len && NULL != coda_strxstr(u, prefix, prefix_len);
+}
+
 coda_url::coda_url()
 {
 	val_str = dom_str = NULL;
@@ -109,7 +115,7 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
-	if (coda_strxstr(u, "http://", 7) || coda_strxstr(u, "https://", 8))
+	if (starts_with(u, sz, "http://", 7) || starts_with(u, sz, "https://", 8))
 	{
 		create_scheme(u, sz, flags);
 
@@ -133,13 +139,13 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 int coda_url::create_scheme(const char *u, size_t sz, uint32_t flags)
 {
-	if (coda_strxstr(u, "https://", 8))
+	if (starts_with(u, sz, "https://", 8))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 8, flags);
 	}
 
-	if (coda_strxstr(u, "http://", 7))
+	if (starts_with(u, sz, "http://", 7))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 7, flags);
@@ -341,8 +347,8 @@ int coda_url::assign_refers(char *beg, uint32_t flags)
 
 int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda_url &parent)
 {
-	if (NULL != coda_strxstr(u, "mailto:", 7)) return -1;
-	if (NULL != coda_strxstr(u, "javascript:", 11)) return -1;
+	if (starts_with(u, sz, "mailto:", 7)) return -1;
+	if (starts_with(u, sz, "javascript:", 11)) return -1;
 	if ( '#' == *u) return -1;
 
 	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
-- 
2.43.0


From 4b710c0fc61480aa8019136d2ccd40e49cf1823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 15/67] fix: assigning a coda_url to itself keeps its value

---
 coda/url_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 0f0f81e..3120dea 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -42,6 +42,8 @@ coda_url::coda_url(const coda_url &u)
 
 coda_url &coda_url::operator= (const coda_url &u)
 {
+	if (this == &u) return *this;
+
 	if (allocated())
 	{
 		free(val_str);
-- 
2.43.0


From f468180c8ebbda7d2087a065422e9e94e5e57c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 16/67] fix: a parent URL with an upper-case HTTPS scheme keeps
 its own host

---
 coda/url_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 3120dea..54724d2 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -353,7 +353,7 @@ int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda
 	if (starts_with(u, sz, "javascript:", 11)) return -1;
 	if ( '#' == *u) return -1;
 
-	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
+	size_t sz_dom = (tolower((unsigned char)parent.val_str[4]) != 's' ? 7 : 8);
 	size_t sz_pub = sz_dom = coda_strnchr(parent.val_str + sz_dom,
 		'/', parent.val_len - sz_dom) - parent.val_str;
 
-- 
2.43.0


From b50b176575de68fffc96d0e031c658926633e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 17/67] fix: the cache stays within its limit when a held key
 gets a larger value

---
 coda/cache.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index e2dac3b..30f87e2 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -66,6 +66,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 				res.first->second.time = time(NULL);
 			}
 
+			drop_last_unused();
+
 			return;
 		}
 
@@ -96,6 +98,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 			res.first->second.time = time(NULL);
 		}
 
+		drop_last_unused();
+
 		return;
 	}
 
-- 
2.43.0


From 38131722c6aafba756a33cc29a6a12bddb47835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:14 +0000
Subject: [PATCH 18/67] fix: cached elements with a very long lifetime do not
 expire at once

---
 coda/cache.hpp | 6 ++++++
 coda/cache.tcc | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/coda/cache.hpp b/coda/cache.hpp
index 811034e..5de1499 100644
--- a/coda/cache.hpp
+++ b/coda/cache.hpp
@@ -35,6 +35,12 @@ class coda_cache
 		{
 			time = ::time(NULL);
 		}
+
+		bool is_outdated(size_t time_max) const
+		{
+			size_t time_cur = ::time(NULL);
+			return time < time_cur && time_max < time_cur - time;
+		}
 	};
 
 	data_t data;
diff --git a/coda/cache.tcc b/coda/cache.tcc
index 30f87e2..c9e175c 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -7,7 +7,7 @@ const Val *coda_cache<Key, Val>::get(const Key &key)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		if (time_max && it->second.is_outdated(time_max))
 		{
 			erase(it);
 			return NULL;
@@ -28,7 +28,7 @@ void coda_cache<Key, Val>::get(const Key &key, Val &val)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		if (time_max && it->second.is_outdated(time_max))
 		{
 			erase(it);
 		}
-- 
2.43.0


From b6ccfd91cf2e56b15446448ff87f3de79496e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:22 +0000
Subject: [PATCH 19/67] fix: string storage enumerates keys longer than 255
 bytes in full

---
 coda/stringstorage.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index c832f39..ee542d4 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -154,14 +154,13 @@ void *string_storage_find(string_storage *ss, const char *s)
 
 void string_storage_enumerate_recursive(const struct string_struct *ss, string_storage_enumerate_callback cb, void *user_data, const char *parent, size_t user_data_size)
 {
-	char buf[256];
+	char buf[UINT8_MAX + STORAGE_BLOCK_SIZE];
 	size_t i;
 	for (i = 0; i < ss->child_count; i++)
 	{
 		uint8_t prev = *(uint8_t*)ss->children[i].value;
 		memcpy(buf, parent, prev);
-		strncpy(buf + prev, ss->children[i].value + 1 + user_data_size, 255 - prev);
-		buf[255] = 0;
+		strcpy(buf + prev, ss->children[i].value + 1 + user_data_size);
 		cb(user_data, buf, ss->children[i].value + 1);
 		string_storage_enumerate_recursive(&ss->children[i], cb, user_data, buf, user_data_size);
 	}
-- 
2.43.0


From 1084e814ff7bb7d03d62546d665feeb9e0b54181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 20/67] fix: string storage keeps track of common prefixes
 longer than 255 bytes

---
 coda/stringstorage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index ee542d4..bae71cb 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -73,7 +73,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 {
 	size_t begin = 0;
 	size_t end = r->child_count;
-	uint8_t common_bytes = 0;
+	size_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
 
@@ -99,6 +99,9 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	/* 2. check how many bytes common with previous string */
 	if (begin != 0) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
 
+	/* the total is kept in one byte */
+	if (common_bytes > (size_t) UINT8_MAX - prev_bytes) common_bytes = UINT8_MAX - prev_bytes;
+
 	if (common_bytes > 8)
 	{
 		return internal_find_add(sb, &r->children[begin - 1], prev_bytes + common_bytes, s + common_bytes, doadd);
-- 
2.43.0


From 0cfbf0498afff087ce5b874139700c87b731772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 21/67] fix: string storage refuses a string that leaves no
 room for its prefix byte

---
 coda/stringstorage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index bae71cb..0646da7 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -145,7 +145,7 @@ void *string_storage_add(string_storage *ss, const char *s)
 {
 	size_t len = strlen(s) + 1;
 
-	if (len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
+	if (1 + len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
 
 	return internal_find_add(&ss->sb, &ss->root, 0, s, 1);
 }
-- 
2.43.0


From 3923095a307022f5bc61d74a4731a415d153047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 22/67] fix: string storage compares a string with neighbours
 after the same prefix only

---
 coda/stringstorage.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 0646da7..e03f9ca 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -96,8 +96,8 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 		}
 	}
 
-	/* 2. check how many bytes common with previous string */
-	if (begin != 0) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+	/* 2. check how many bytes common with previous string, if it starts at the same place */
+	if (begin != 0 && *(uint8_t*)r->children[begin - 1].value == prev_bytes) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
 
 	/* the total is kept in one byte */
 	if (common_bytes > (size_t) UINT8_MAX - prev_bytes) common_bytes = UINT8_MAX - prev_bytes;
-- 
2.43.0


From 93fff9487ab23d1b0d0c91f369143f5beb8faa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 23/67] fix: coda_random_init closes the device when it cannot
 be read

---
 coda/random.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coda/random.c b/coda/random.c
index d74da55..a3b5d0d 100644
--- a/coda/random.c
+++ b/coda/random.c
@@ -20,9 +20,8 @@ int coda_random_init()
 	uint32_t rnd_from_device;
 
 	int rc = read(fd, &rnd_from_device, sizeof(rnd_from_device));
-	if (0 > rc) return -1;
-
 	close(fd);
+	if (0 > rc) return -1;
 
 	srandom(rnd_from_device);
 	coda_random_inited = 1;
-- 
2.43.0


From 6ae120d49921d549dbea3e3881ea688de9b8574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 24/67] fix: slots of a log_array are zero for every element
 type

---
 coda/log_array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/log_array.hpp b/coda/log_array.hpp
index 7252675..3ae68d9 100644
--- a/coda/log_array.hpp
+++ b/coda/log_array.hpp
@@ -15,6 +15,7 @@ struct log_array_value_holder
 
 template<typename _T>
 inline log_array_value_holder<_T>::log_array_value_holder()
+	: value()
 {
 }
 
-- 
2.43.0


From 651c7210c1c41520ecad0f9236f57b3ae95d7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 25/67] fix: a queue refuses memory of another geometry without
 reading it after unmapping

---
 coda/shm_queue.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 9e2942f..cefa60c 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -163,10 +163,12 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if ((BOX_SIZE != info->box_size) || (MAX_BOXES_IN_QUEUE != info->size))
 	{
+		uint32_t box_size = info->box_size;
+
 		shmdt(info);
 		info = 0;
 
-		throw coda_error("box_size(%d) in queue is not equal to %d", info->box_size, BOX_SIZE);
+		throw coda_error("box_size(%d) in queue is not equal to %d", box_size, BOX_SIZE);
 	}
 
 	boxes = ptr;
-- 
2.43.0


From 33fd8aa4be72c50b762e41b28b8b3c9032e0b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 26/67] fix: a queue that fails to connect releases its lock
 and can connect later

---
 coda/shm_queue.tcc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index cefa60c..3a14b26 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -228,7 +228,19 @@ void shm_queue::queue<_T>::connect(const char *key_fname, uint32_t bs, uint32_t
 
 	connect_sem(key_fname);
 	lock_queue();
-	connect_shm(key_fname);
+
+	try
+	{
+		connect_shm(key_fname);
+	}
+	catch (const std::exception& e)
+	{
+		unlock_queue();
+		sem_id = -1;
+		shm_id = -1;
+		throw;
+	}
+
 	unlock_queue();
 }
 
-- 
2.43.0


From 0f3fd3eaba7256f83763c91c39acb7a81dd0cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 27/67] fix: disconnecting a shared hash map unmaps its memory

---
 coda/shm_hash_map.tcc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 07d85d0..0545174 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -447,13 +447,11 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 		return;
 	}
 
+	shmdt(shmem_p);
 	detach();
 
 	sem_id = -1;
 	shm_id = -1;
-
-	shmdt(shmem_p);
-	shmem_p = 0;
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
-- 
2.43.0


From 6905457fd75d9231e5a9601dd983112ac3b4868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 28/67] fix: a shared hash map that failed to connect can
 connect later

---
 coda/shm_hash_map.tcc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 0545174..a39eafa 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -442,12 +442,11 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 {
-	if (!is_connected())
+	if (is_connected())
 	{
-		return;
+		shmdt(shmem_p);
 	}
 
-	shmdt(shmem_p);
 	detach();
 
 	sem_id = -1;
-- 
2.43.0


From e14954b1ea9dbc7a08152d7b93810dc08161a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:57 +0000
Subject: [PATCH 29/67] fix: the size of a queue's memory is not computed in 32
 bits

---
 coda/shm_queue.tcc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 3a14b26..da736aa 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -133,9 +133,9 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	int created = 0;
 
-	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
+	if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
 	{
-		if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
+		if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
 		{
 			throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 		}
@@ -154,7 +154,7 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if (created)
 	{
-		memset(ptr, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
+		memset(ptr, 0, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
 		info->size = MAX_BOXES_IN_QUEUE;
 	}
@@ -180,7 +180,7 @@ void shm_queue::queue<_T>::reset_queue()
 {
 	if (info)
 	{
-		memset(info, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
+		memset(info, 0, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
 		info->size = MAX_BOXES_IN_QUEUE;
 	}
@@ -297,7 +297,7 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 
 		lock_queue();
 
-		uint8_t *ptr = boxes + info->start * info->box_size;
+		uint8_t *ptr = boxes + (size_t) info->start * info->box_size;
 		current_box.copy_from(ptr);
 		memset(ptr, 0, info->box_size);
 
@@ -332,7 +332,7 @@ void shm_queue::queue<_T>::flush()
 		lock_queue();
 		if ((info->end + 1) % info->size != info->start)
 		{
-			uint8_t *ptr = boxes + info->end * info->box_size;
+			uint8_t *ptr = boxes + (size_t) info->end * info->box_size;
 			current_box.copy_to(ptr);
 			info->end++;
 			info->end %= info->size;
-- 
2.43.0


From 3a6798078e4d167d25f385f7ca9f30bd5ea4f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:57 +0000
Subject: [PATCH 30/67] fix: a queue initializes memory whose creator failed
 before doing so

---
 coda/shm_queue.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index da736aa..14cc8e3 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -152,7 +152,7 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	info = (shm_queue::queue_info *) ptr;
 
-	if (created)
+	if (created || (0 == info->box_size && 0 == info->size)) // or nobody got as far as initializing it
 	{
 		memset(ptr, 0, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
-- 
2.43.0


From a144c958c8535102debcb26bfee313262031a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:29 +0000
Subject: [PATCH 31/67] fix: shared memory and semaphores are created only when
 they do not exist

---
 coda/shm_hash_map.tcc | 4 ++--
 coda/shm_queue.tcc    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index a39eafa..55a6931 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -348,7 +348,7 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_shm(const char *key
 	if (-1 == (shm_id = shmget(key, required_space(), 0666)))
 	{
 		// not created? creating...
-		if (-1 == (shm_id = shmget(key, required_space(), IPC_CREAT | 0666)))
+		if (ENOENT != errno || -1 == (shm_id = shmget(key, required_space(), IPC_CREAT | 0666)))
 		{
 			unlock_write_rw();
 			throw coda_error("error creating queue shm: %s", coda_strerror(errno));
@@ -393,7 +393,7 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_sem(const char *key
 
 	if (-1 == (sem_id = semget(key, 2, 0)))
 	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
+		if (ENOENT != errno || -1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
 		{
 			throw coda_error("error getting sem: %s", coda_strerror(errno));
 		}
diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 14cc8e3..58960ea 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -135,7 +135,7 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
 	{
-		if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
+		if (ENOENT != errno || -1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
 		{
 			throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 		}
@@ -203,7 +203,7 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 
 	if (-1 == (sem_id = semget(key, 2, 0)))
 	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
+		if (ENOENT != errno || -1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
 		{
 			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
 		}
-- 
2.43.0


From 4dec221218473b38a95b93d48fceba92f8c4e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:11 +0000
Subject: [PATCH 32/67] fix: a queue that cannot set up its semaphores does not
 leave them behind

---
 coda/shm_queue.tcc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 58960ea..250afdf 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -208,14 +208,15 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
 		}
 
-		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
+		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1))
+		||  -1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)))
 		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
-		}
+			int err = errno;
 
-		if (-1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)))
-		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
+			semctl(sem_id, 0, IPC_RMID); // a lock that nobody can take must not stay
+			sem_id = -1;
+
+			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(err));
 		}
 	}
 }
-- 
2.43.0


From 6f48711269d0db1fc7931fdcdc1b690997013ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:06 +0000
Subject: [PATCH 33/67] fix: connecting a shared hash map does not give back a
 lock it could not take

---
 coda/shm_hash_map.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 55a6931..b53622e 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -418,6 +418,7 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 	{
 		connect_sem(key_fname);
 		connect_shm(key_fname);
+		lock_write_rw();
 	}
 	catch (const std::exception& e)
 	{
@@ -427,7 +428,6 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 
 	try
 	{
-		lock_write_rw();
 		attach(shmem_p);
 		unlock_write_rw();
 	}
-- 
2.43.0


From d6a99cb38e05133de530e4c50b4f78f610847e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 34/67] fix: a queue operation interrupted while locking waits
 on instead of going on unlocked

---
 coda/shm_queue.tcc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 250afdf..a5a4efa 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -228,7 +228,16 @@ void shm_queue::queue<_T>::connect(const char *key_fname, uint32_t bs, uint32_t
 	MAX_BOXES_IN_QUEUE = mbiq;
 
 	connect_sem(key_fname);
-	lock_queue();
+
+	try
+	{
+		lock_queue();
+	}
+	catch (const std::exception& e)
+	{
+		sem_id = -1;
+		throw;
+	}
 
 	try
 	{
@@ -404,7 +413,14 @@ void shm_queue::queue<_T>::lock_queue()
 	sem.sem_num = SEM_ID_0;
 	sem.sem_op = -1;
 	sem.sem_flg = SEM_UNDO;
-	semop(sem_id, &sem, 1);
+
+	while (-1 == semop(sem_id, &sem, 1))
+	{
+		if (EINTR != errno)
+		{
+			throw coda_error("shm_queue::queue<>: error locking queue: %s", coda_strerror(errno));
+		}
+	}
 }
 
 template <typename _T>
-- 
2.43.0


From c0d7c88869c868ce26877c08ead67b3ee073107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 35/67] fix: a process that dies in a queue operation leaves no
 ring index out of range

---
 coda/shm_queue.tcc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index a5a4efa..f7c125f 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -311,8 +311,7 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 		current_box.copy_from(ptr);
 		memset(ptr, 0, info->box_size);
 
-		info->start++;
-		info->start %= info->size;
+		info->start = (info->start + 1) % info->size;
 
 		unlock_queue();
 
@@ -344,8 +343,7 @@ void shm_queue::queue<_T>::flush()
 		{
 			uint8_t *ptr = boxes + (size_t) info->end * info->box_size;
 			current_box.copy_to(ptr);
-			info->end++;
-			info->end %= info->size;
+			info->end = (info->end + 1) % info->size;
 
 			struct sembuf sem;
 			sem.sem_num = SEM_ID_QUEUE_COUNT;
-- 
2.43.0


From 52a501d84e4d19b15423cb2ba01b05ea3d4ec592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:41 +0000
Subject: [PATCH 36/67] fix: a process that dies clearing a shared hash map
 leaves it consistent

---
 coda/shm_hash_map.tcc | 4 ++--
 coda/shm_pool.tcc     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index b53622e..845e4e3 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -202,13 +202,13 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::clear()
 {
 	lock_write_rw();
 
-	nodes_pool.clear();
-
 	for (uint32_t i = 0; i < _HASH_SIZE; i++)
 	{
 		hash[i] = (uint32_t) -1;
 	}
 
+	nodes_pool.clear(); // last: nodes must not be given out while the hash still refers to them
+
 	unlock_write_rw();
 }
 
diff --git a/coda/shm_pool.tcc b/coda/shm_pool.tcc
index e624030..982fbdd 100644
--- a/coda/shm_pool.tcc
+++ b/coda/shm_pool.tcc
@@ -96,7 +96,7 @@ size_t shm::pool<_Type, _OBJECTS_NUM>::allocated_objects()
 template <typename _Type, int _OBJECTS_NUM>
 void shm::pool<_Type, _OBJECTS_NUM>::clear()
 {
+	free_nodes.clear(); // first: otherwise nodes could be given out twice
 	*current = 0;
-	free_nodes.clear();
 }
 
-- 
2.43.0


From 3dcfa92dbd9b2cf324f5c3a76fd7d5cce5c993df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:53 +0000
Subject: [PATCH 37/67] fix: a process that dies freeing a node does not leave
 an undefined one to be allocated

---
 coda/shm_stack.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/shm_stack.tcc b/coda/shm_stack.tcc
index 67b1b7c..d291b61 100644
--- a/coda/shm_stack.tcc
+++ b/coda/shm_stack.tcc
@@ -79,7 +79,8 @@ inline bool shm::stack<_Type, _OBJECTS_NUM>::push(const _Type& el)
 	}
 	else
 	{
-		data[++(*current)] = el;
+		data[*current + 1] = el;
+		++(*current); // last: a process may die before it stored the element
 
 		return true;
 	}
-- 
2.43.0


From 00961a58aeaf5ab404292dd922c3475fd319d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:00 +0000
Subject: [PATCH 38/67] fix: log_err and log_die write one line, not an empty
 one after it

---
 coda/logger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/logger.h b/coda/logger.h
index 08dc849..9997814 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -26,9 +26,9 @@ extern "C" {
 #define LOG_debug   8  /* DBG: debug message                     */
 
 #define log_msg(lev,fmt,...) log_fmt(stderr,LOG_##lev,#lev,fmt,##__VA_ARGS__)
-#define log_err(err,fmt,...) log_msg(error,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err))
-#define log_ret(err,fmt,...) log_msg(error,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err)), err
-#define log_die(err,fmt,...) log_msg(emerg,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE)
+#define log_err(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err))
+#define log_ret(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)), err
+#define log_die(err,fmt,...) log_msg(emerg,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE)
 
 #define log_access( fmt,...) log_msg(access,fmt,##__VA_ARGS__)
 #define log_emerg(  fmt,...) log_msg(emerg, fmt,##__VA_ARGS__)
-- 
2.43.0


From a0a580c3659beedf6f79b4afb9502f8d85d92d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:47 +0000
Subject: [PATCH 39/67] fix: log_create does not write into the path it is
 given

---
 coda/logger.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index a51975a..622ed06 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -2,6 +2,8 @@
 #include <errno.h>
 #include <fcntl.h>
 #include <stdarg.h>
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <pthread.h>
 #include "logger.h"
@@ -38,7 +40,16 @@ int log_levels(const char* level)
 
 int log_create(const char* path, int level)
 {
-	if (0 > coda_mkpath((char *) path)) return -1;
+	int rc;
+	char* copy;
+
+	copy = strdup(path); /* coda_mkpath writes into its argument */
+	if (NULL == copy) return -1;
+
+	rc = coda_mkpath(copy);
+	free(copy);
+	if (0 > rc) return -1;
+
 	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
 
 	log_level = level;
-- 
2.43.0


From 6cee5829214b63a47bb8b55bb02b3e5d97e5cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:19 +0000
Subject: [PATCH 40/67] fix: log_create does not switch files in the middle of
 another thread's message

---
 coda/logger.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index 622ed06..2d6ee39 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -50,7 +50,10 @@ int log_create(const char* path, int level)
 	free(copy);
 	if (0 > rc) return -1;
 
-	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
+	flockfile(stderr); /* a message being written stays in one piece */
+	rc = coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY);
+	funlockfile(stderr);
+	if (0 > rc) return -1;
 
 	log_level = level;
 	return STDERR_FILENO;
-- 
2.43.0


From 1febe6083e62467aa010f3a2a162d5f64f4df884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:19 +0000
Subject: [PATCH 41/67] fix: coda_mkpath does not read past the end of an empty
 path

---
 coda/system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index a60cf60..12a5ca0 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -35,7 +35,7 @@ int coda_fdopen(int fd, const char* path, int flags)
 int coda_mkpath(char* path)
 {
 	int rc;
-	char* p = path + 1;
+	char* p = *path ? path + 1 : path;
 
 	for (; *p; ++p)
 	{
-- 
2.43.0


From 31cfdfa18bc028ae538007559ab6962506b4434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:46 +0000
Subject: [PATCH 42/67] fix: coda_inet_addr rejects octets that overflow

---
 coda/socket.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/socket.h b/coda/socket.h
index eecfcaa..7d30443 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -81,6 +81,7 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		if (c >= '0' && c <= '9')
 		{
 			octet = octet * 10 + (c - '0');
+			if (octet > 255) return INADDR_NONE;
 			continue;
 		}
 
-- 
2.43.0


From 987b0ebf591fea2ad3521766f66139a7e5df5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:07 +0000
Subject: [PATCH 43/67] fix: coda_inet_addr rejects empty octets

---
 coda/socket.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/coda/socket.h b/coda/socket.h
index 7d30443..15fb89a 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -68,11 +68,12 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 {
 	const char *p;
 	in_addr_t addr;
-	uintptr_t octet, n;
+	uintptr_t octet, n, digits;
 
 	addr = 0;
 	octet = 0;
 	n = 0;
+	digits = 0;
 
 	for (p = data; p < data + size; ++p)
 	{
@@ -82,13 +83,15 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		{
 			octet = octet * 10 + (c - '0');
 			if (octet > 255) return INADDR_NONE;
+			digits++;
 			continue;
 		}
 
-		if (c == '.' && octet < 256)
+		if (c == '.' && octet < 256 && digits)
 		{
 			addr = (addr << 8) + octet;
 			octet = 0;
+			digits = 0;
 			n++;
 			continue;
 		}
@@ -96,7 +99,7 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		return INADDR_NONE;
 	}
 
-	if (n != 3)
+	if (n != 3 || !digits)
 	{
 		return INADDR_NONE;
 	}
-- 
2.43.0


From 58e9e2e62fcabc6840888bf88336addd3bd2bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 44/67] fix: coda_set_socket_timeout accepts timeouts of a
 second and more

---
 coda/socket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/socket.h b/coda/socket.h
index 15fb89a..336b759 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -32,8 +32,8 @@ int coda_set_socket_timeout(int s, long timeout)
 {
 	struct timeval tv;
 
-	tv.tv_sec = 0;
-	tv.tv_usec = timeout;
+	tv.tv_sec = timeout / 1000000;
+	tv.tv_usec = timeout % 1000000;
 
 	return setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, (struct timeval *) &tv, sizeof(tv));
 }
-- 
2.43.0


From d3eca6c989e16bb655a27d63f4a61fd8b3ddef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:34 +0000
Subject: [PATCH 45/67] fix: coda_fdopen leaves no descriptor open when it
 cannot move the file

---
 coda/system.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 12a5ca0..fd4b6ff 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -29,7 +29,17 @@ int coda_fdopen(int fd, const char* path, int flags)
 	td = open(path, flags, 0644);
 	if (0 > td) return -1;
 
-	return coda_fdmove(td, fd);
+	fd = coda_fdmove(td, fd);
+
+	if (0 > fd)
+	{
+		int rc = errno;
+		close(td);
+		errno = rc;
+		return -1;
+	}
+
+	return fd;
 }
 
 int coda_mkpath(char* path)
-- 
2.43.0


From bc67049b9293c5a941665fc72fe13956eead09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:34 +0000
Subject: [PATCH 46/67] fix: documents of 2 GB and more are parsed completely

The length of a text was cut to 32 bits, so that the rest of a malformed
text of more than 4 GB was ignored, and well-formed texts of more than
2 GB were rejected by XML_Parse(), which takes an int.
---
 coda/txml.cpp | 12 +++++++++++-
 coda/txml.hpp |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 1434912..b16f260 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -92,8 +92,18 @@ coda::txml_parser::~txml_parser()
 	XML_ParserFree(p);
 }
 
-void coda::txml_parser::parse(const char* szDataSource, unsigned int iDataLength, bool bIsFinal)
+void coda::txml_parser::parse(const char* szDataSource, size_t iDataLength, bool bIsFinal)
 {
+	const size_t iMaxPart = 1 << 24; /* XML_Parse() takes an int */
+
+	for (; iDataLength > iMaxPart; iDataLength -= iMaxPart, szDataSource += iMaxPart)
+	{
+		if (XML_STATUS_ERROR == XML_Parse(p, szDataSource, iMaxPart, 0))
+		{
+			raise(XML_ErrorString(XML_GetErrorCode(p)));
+		}
+	}
+
 	int iFinal = bIsFinal;
 
 	if (XML_STATUS_ERROR == XML_Parse(p, szDataSource, iDataLength, iFinal))
diff --git a/coda/txml.hpp b/coda/txml.hpp
index c0d47a8..023a09a 100644
--- a/coda/txml.hpp
+++ b/coda/txml.hpp
@@ -43,7 +43,7 @@ struct txml_parser
 	std::vector<level_desc> levels;
 	std::vector<level_desc>::iterator det_iter;
 
-	void parse(const char* szDataSource, unsigned int iDataLength, bool bIsFinal = true);
+	void parse(const char* szDataSource, size_t iDataLength, bool bIsFinal = true);
 	void raise(const char* err);
 
 	void determine();
-- 
2.43.0


From 78b79c7736771fc1918dfe0a55c0dd9941665b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:18 +0000
Subject: [PATCH 47/67] fix: coda_strprintf and coda_strappend do not build
 long outputs on the stack

---
 coda/string.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index d75dedd..877a6c9 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -17,10 +17,12 @@ std::string coda_strprintf(const char *fmt, ...)
 
 	if (BUFSZ <= bytes)
 	{
-		BUF = (char *) alloca(bytes + 1);
+		std::string result(bytes, 0);
 		va_start(ap, fmt);
-		vsnprintf(BUF, bytes + 1, fmt, ap);
+		vsnprintf(&result[0], (size_t) bytes + 1, fmt, ap);
 		va_end(ap);
+
+		return result;
 	}
 
 	return std::string(BUF, bytes < 0 ? 0 : bytes);
@@ -37,10 +39,14 @@ int coda_strappend(std::string& out, const char* fmt, ...)
 
 	if (BUFSZ <= bytes)
 	{
-		BUF = (char *) alloca(bytes + 1);
+		std::string temp(bytes, 0);
 		va_start(ap, fmt);
-		vsnprintf(BUF, bytes + 1, fmt, ap);
+		vsnprintf(&temp[0], (size_t) bytes + 1, fmt, ap);
 		va_end(ap);
+
+		out.append(temp);
+
+		return bytes;
 	}
 
 	out.append(BUF, bytes);
-- 
2.43.0


From 5c76e0b067ad4903d61a8f78d71952131b110643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 48/67] fix: formatting into a string adds nothing when the
 arguments cannot be formatted

---
 coda/string.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 877a6c9..a871aa7 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -49,6 +49,8 @@ int coda_strappend(std::string& out, const char* fmt, ...)
 		return bytes;
 	}
 
+	if (bytes < 0) return -1;
+
 	out.append(BUF, bytes);
 
 	return bytes;
@@ -70,7 +72,7 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 			bytes = num;
 		}
 
-		out.append(BUF, bytes);
+		if (0 <= bytes) out.append(BUF, bytes);
 	}
 	else
 	{
@@ -79,7 +81,13 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 		bytes = vsnprintf(NULL, 0, fmt, aq);
 		va_end(aq);
 
-		if (0 <= bytes && (size_t) bytes < num)
+		if (bytes < 0)
+		{
+			va_end(ap);
+			return -1;
+		}
+
+		if ((size_t) bytes < num)
 		{
 			num = bytes;
 		}
@@ -91,7 +99,7 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 			bytes = num;
 		}
 
-		out.append(BUF, bytes);
+		if (0 <= bytes) out.append(BUF, bytes);
 
 		delete [] BUF;
 	}
@@ -119,7 +127,7 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 			bytes = num;
 		}
 
-		out.insert(pos, BUF, bytes);
+		if (0 <= bytes) out.insert(pos, BUF, bytes);
 	}
 	else
 	{
@@ -128,7 +136,13 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 		bytes = vsnprintf(NULL, 0, fmt, aq);
 		va_end(aq);
 
-		if (0 <= bytes && (size_t) bytes < num)
+		if (bytes < 0)
+		{
+			va_end(ap);
+			return -1;
+		}
+
+		if ((size_t) bytes < num)
 		{
 			num = bytes;
 		}
@@ -140,7 +154,7 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 			bytes = num;
 		}
 
-		out.insert(pos, BUF, bytes);
+		if (0 <= bytes) out.insert(pos, BUF, bytes);
 
 		delete [] BUF;
 	}
-- 
2.43.0


From 22499e6f39da7d70c467d0a096692195a98be023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 49/67] fix: coda_strerror does not take stack until the
 calling function returns

---
 coda/error.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/coda/error.h b/coda/error.h
index 7360886..6e041fc 100644
--- a/coda/error.h
+++ b/coda/error.h
@@ -11,8 +11,6 @@ extern "C" {
 #endif
 
 #define CODA_ERROR_BUFSZ 4096
-#define coda_strerror(err) coda_strerror_r(err, (char*) \
-	alloca(CODA_ERROR_BUFSZ), CODA_ERROR_BUFSZ)
 
 static inline
 const char* coda_strerror_r(int err, char* data, size_t size)
@@ -25,6 +23,16 @@ const char* coda_strerror_r(int err, char* data, size_t size)
 #endif /* __USE_GNU */
 }
 
+/* texts of the last few errors of the thread stay valid */
+static inline
+const char* coda_strerror(int err)
+{
+	static __thread char data [4][CODA_ERROR_BUFSZ];
+	static __thread unsigned last;
+
+	return coda_strerror_r(err, data[last++ % 4], CODA_ERROR_BUFSZ);
+}
+
 #ifdef __cplusplus
 }  /* extern "C" */
 #endif
-- 
2.43.0


From e4fdbbbe0bb7ea8cbc2420687532e991c56e52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 50/67] fix: the thread queue is not left locked by an item
 that throws or a cancelled thread

---
 coda/synque.hpp | 62 +++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/coda/synque.hpp b/coda/synque.hpp
index e246177..d1e57f5 100644
--- a/coda/synque.hpp
+++ b/coda/synque.hpp
@@ -14,6 +14,19 @@ class synque
 	pthread_mutex_t m;
 	std::deque<_T>  d;
 
+	/* gives the mutex back however an operation ends: copying an item may throw, a waiting thread may be cancelled */
+	class locker
+	{
+		pthread_mutex_t &m;
+
+		locker(const locker&);
+		locker& operator=(const locker&);
+
+	public:
+		explicit locker(pthread_mutex_t &i_m) : m(i_m) { pthread_mutex_lock(&m); }
+		~locker() { pthread_mutex_unlock(&m); }
+	};
+
 public:
 	synque()
 	{
@@ -29,28 +42,25 @@ public:
 
 	void add(const _T& e)
 	{
-		pthread_mutex_lock(&m);
+		locker lock(m);
 		d.push_front(e);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	void signal()
 	{
-		pthread_mutex_lock(&m);
+		locker lock(m);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	int get(_T& e, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		locker lock(m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 
@@ -58,34 +68,38 @@ public:
 
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
 
-		e = d.back();
-		d.pop_back();
+		try
+		{
+			e = d.back();
+		}
+		catch (...)
+		{
+			pthread_cond_signal(&c); /* the item is left to another waiting thread */
+			throw;
+		}
 
-		pthread_mutex_unlock(&m);
+		d.pop_back();
 
 		return 0;
 	}
 
 	int get(std::deque<_T>& out, ssize_t max_count, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		locker lock(m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 			pthread_cond_wait(&c, &m);
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -94,23 +108,27 @@ public:
 		if ((max_count > 0) && (max_count  < quantity))
 			quantity = max_count;
 
-		for (size_t i = 0; i < quantity; ++i)
+		try
 		{
-			out.push_back(d.back());
-			d.pop_back();
+			for (size_t i = 0; i < quantity; ++i)
+			{
+				out.push_back(d.back());
+				d.pop_back();
+			}
+		}
+		catch (...)
+		{
+			pthread_cond_signal(&c); /* the items are left to another waiting thread */
+			throw;
 		}
-
-		pthread_mutex_unlock(&m);
 
 		return 0;
 	}
 
 	size_t size()
 	{
-		pthread_mutex_lock(&m);
-		size_t sz = d.size();
-		pthread_mutex_unlock(&m);
-		return sz;
+		locker lock(m);
+		return d.size();
 	}
 };
 
-- 
2.43.0


From 86c179681b32807a61087f862ae94340219fc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 51/67] fix: a cache is unchanged when copying a value into it
 throws

---
 coda/cache.tcc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index c9e175c..1909c3c 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -43,9 +43,22 @@ template <typename Key, typename Val>
 void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_time)
 {
 	std::pair<typename data_t::iterator, bool> res;
+	size_t size = estimate_capacity(val);
 
 	res = data.insert(typename data_t::value_type(key, elem_t()));
 
+	/* may throw: before anything else changes */
+
+	try
+	{
+		res.first->second.elem = val;
+	}
+	catch (...)
+	{
+		if (res.second) data.erase(res.first);
+		throw;
+	}
+
 	if (res.second == false)
 	{
 		/* pop */
@@ -57,8 +70,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		else
 		{
 			size_cur -= res.first->second.size;
-			res.first->second.elem = val;
-			res.first->second.size = estimate_capacity(val);
+			res.first->second.size = size;
 			size_cur += res.first->second.size;
 
 			if (do_update_time)
@@ -89,8 +101,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		endp = &*res.first;
 
 		size_cur -= res.first->second.size;
-		res.first->second.elem = val;
-		res.first->second.size = estimate_capacity(val);
+		res.first->second.size = size;
 		size_cur += res.first->second.size;
 
 		if (do_update_time)
@@ -117,8 +128,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		begp = endp;
 	}
 
-	res.first->second.elem = val;
-	res.first->second.size = estimate_capacity(val);
+	res.first->second.size = size;
 	size_cur += res.first->second.size;
 
 	drop_last_unused();
-- 
2.43.0


From 4766a894f07240877bb6f666d577aa6f36b25881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 52/67] fix: a copy of a cache does not point into the original

---
 coda/cache.hpp |  4 ++++
 coda/cache.tcc | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/coda/cache.hpp b/coda/cache.hpp
index 5de1499..6af208a 100644
--- a/coda/cache.hpp
+++ b/coda/cache.hpp
@@ -52,6 +52,7 @@ class coda_cache
 	size_t time_max;
 
 	void drop_last_unused();
+	void swap(coda_cache &c);
 
 public:
 	coda_cache(size_t i_size_max, size_t i_time_max)
@@ -63,6 +64,9 @@ public:
 	{
 	}
 
+	coda_cache(const coda_cache &c);
+	coda_cache &operator= (const coda_cache &c);
+
 	/* NOTE, that both get() functions could possibly erase outdated element */
 
 	const Val *get(const Key &key);
diff --git a/coda/cache.tcc b/coda/cache.tcc
index 1909c3c..eb6ca70 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -1,5 +1,57 @@
 #include <sstream> /* this is needed for dbg() output */
 
+/* the elements of a copy are linked to each other, not to those of c */
+
+template <typename Key, typename Val>
+coda_cache<Key, Val>::coda_cache(const coda_cache &c)
+	: begp(NULL)
+	, endp(NULL)
+	, size_cur(c.size_cur)
+	, size_max(c.size_max)
+	, time_max(c.time_max)
+{
+	for (const data_value_t *it = c.begp; it != NULL; it = it->second.next)
+	{
+		data_value_t *copy = &*data.insert(*it).first;
+
+		copy->second.prev = endp;
+		copy->second.next = NULL;
+
+		if (endp != NULL)
+		{
+			endp->second.next = copy;
+		}
+		else
+		{
+			begp = copy;
+		}
+
+		endp = copy;
+	}
+}
+
+template <typename Key, typename Val>
+coda_cache<Key, Val> &coda_cache<Key, Val>::operator= (const coda_cache &c)
+{
+	coda_cache copy(c);
+	swap(copy);
+
+	return *this;
+}
+
+template <typename Key, typename Val>
+void coda_cache<Key, Val>::swap(coda_cache &c)
+{
+	data.swap(c.data);
+
+	std::swap(begp, c.begp);
+	std::swap(endp, c.endp);
+
+	std::swap(size_cur, c.size_cur);
+	std::swap(size_max, c.size_max);
+	std::swap(time_max, c.time_max);
+}
+
 template <typename Key, typename Val>
 const Val *coda_cache<Key, Val>::get(const Key &key)
 {
-- 
2.43.0


From 0b232e68b7bccd144eca1545e83541245b31b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 53/67] fix: string storage stays intact when memory runs out

---
 coda/stringstorage.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index e03f9ca..476fae9 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -76,6 +76,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	size_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
+	struct string_struct *children;
 
 	while (begin < end)
 	{
@@ -109,27 +110,33 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 
 	if (doadd == 0) return 0;
 
-	/* 3. insert string after begin */
-	r->children = allocate_reallocate_array(r->children, r->child_count, sizeof(struct string_struct));
-	if (r->children == 0) return 0;
-	if (begin != r->child_count)
-	{
-		memmove(&r->children[begin + 1], &r->children[begin],
-		  (r->child_count - begin) * sizeof(struct string_struct));
-	}
-
+	/* 3. insert string after begin; nothing changes if there is no memory */
 	len = strlen(s) + 1;
 	if ((sb->current == 0) || (sb->used_bytes + 1 + len + sb->user_data_size > STORAGE_BLOCK_SIZE))
 	{
 		char *newcurrent = (char*)calloc(1, STORAGE_BLOCK_SIZE);
-		sb->blocks = allocate_reallocate_array(sb->blocks, sb->block_count, sizeof(char*));
-		if (sb->blocks == 0) return 0;
+		char **blocks = newcurrent ? allocate_reallocate_array(sb->blocks, sb->block_count, sizeof(char*)) : 0;
+		if (blocks == 0)
+		{
+			free(newcurrent);
+			return 0;
+		}
 
+		sb->blocks = blocks;
 		sb->blocks[sb->block_count++] = newcurrent;
 		sb->current = newcurrent;
 		sb->used_bytes = 0;
 	}
 
+	children = allocate_reallocate_array(r->children, r->child_count, sizeof(struct string_struct));
+	if (children == 0) return 0;
+	r->children = children;
+	if (begin != r->child_count)
+	{
+		memmove(&r->children[begin + 1], &r->children[begin],
+		  (r->child_count - begin) * sizeof(struct string_struct));
+	}
+
 	newvalue = sb->current + sb->used_bytes;
 	r->children[begin].value = newvalue;
 	r->children[begin].child_count = 0;
-- 
2.43.0


From 50ecfadf961a5f64c0dfa3d49d953bbc5a963e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 54/67] fix: coda_base64_decode_alloc reports the size needed
 when memory runs out, as documented

---
 coda/base64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coda/base64.c b/coda/base64.c
index a285b21..dd3c740 100644
--- a/coda/base64.c
+++ b/coda/base64.c
@@ -407,7 +407,11 @@ coda_base64_decode_alloc (const char *in, size_t inlen, char **out,
 
   *out = malloc (needlen);
   if (!*out)
-    return true;
+    {
+      if (outlen)
+	*outlen = needlen;
+      return true;
+    }
 
   if (!coda_base64_decode (in, inlen, *out, &needlen))
     {
-- 
2.43.0


From 6a5bcecbe86c82939cd86a07e489b9fa59784267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:13 +0000
Subject: [PATCH 55/67] fix: no leak when a formatted text does not fit in
 memory

---
 coda/string.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index a871aa7..fb71b70 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -92,16 +92,14 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 			num = bytes;
 		}
 
-		char* BUF = new char [num + 1];
+		std::string BUF(num + 1, 0); /* given back if [out] cannot grow */
 
-		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
+		if ((int) num < (bytes = vsnprintf(&BUF[0], num + 1, fmt, ap)))
 		{
 			bytes = num;
 		}
 
-		if (0 <= bytes) out.append(BUF, bytes);
-
-		delete [] BUF;
+		if (0 <= bytes) out.append(BUF, 0, bytes);
 	}
 
 	va_end(ap);
@@ -147,16 +145,14 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 			num = bytes;
 		}
 
-		char* BUF = new char [num + 1];
+		std::string BUF(num + 1, 0); /* given back if [out] cannot grow */
 
-		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
+		if ((int) num < (bytes = vsnprintf(&BUF[0], num + 1, fmt, ap)))
 		{
 			bytes = num;
 		}
 
-		if (0 <= bytes) out.insert(pos, BUF, bytes);
-
-		delete [] BUF;
+		if (0 <= bytes) out.insert(pos, BUF, 0, bytes);
 	}
 
 	va_end(ap);
-- 
2.43.0


From f08000ed3c0b1640660ad9769594daf9eed2cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:13 +0000
Subject: [PATCH 56/67] fix: a queue that gets no memory when connecting stays
 disconnected

---
 coda/shm_queue.tcc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index f7c125f..cfa96ad 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -171,8 +171,19 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 		throw coda_error("box_size(%d) in queue is not equal to %d", box_size, BOX_SIZE);
 	}
 
+	try
+	{
+		current_box.allocate(BOX_SIZE);
+	}
+	catch (...)
+	{
+		shmdt(info);
+		info = 0;
+
+		throw;
+	}
+
 	boxes = ptr;
-	current_box.allocate(BOX_SIZE);
 }
 
 template <typename _T>
-- 
2.43.0


From 9b7a6fb6c8b763a50ec55db233ac05faaf766fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 57/67] fix: base58 encoding reports that there is no memory

---
 coda/base58.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index fe86096..adccb75 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -9,7 +9,8 @@ static inline unsigned char to_uchar (char ch)
     return ch;
 }
 
-void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
+/* false: no memory */
+static bool base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
 {
     static const char b58str[58] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
 
@@ -26,6 +27,8 @@ void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
     char* b58_begin = NULL;
     char* b58_curr = NULL;
     b58_begin = b58_curr = (char*)calloc(b58len, sizeof(unsigned char));
+    if (!b58_begin)
+        return false;
 
     while (inlen)
     {
@@ -57,6 +60,14 @@ void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
     if (outlen) *out = '\0';
 
     free(b58_begin);
+
+    return true;
+}
+
+void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
+{
+    if (!base58_encode (in, inlen, out, outlen) && outlen)
+        *out = '\0';
 }
 
 size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
@@ -75,7 +86,13 @@ size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
     if (!*out)
         return outlen;
 
-    coda_base58_encode (in, inlen, *out, outlen);
+    if (!base58_encode (in, inlen, *out, outlen))
+    {
+        free (*out);
+        *out = NULL;
+        return outlen;
+    }
+
     return strlen (*out);
 }
 
-- 
2.43.0


From e1b333426e9358f6ca25de85620805cf8d867360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:48 +0000
Subject: [PATCH 58/67] fix: a URL too long for its 32-bit lengths is refused,
 not cut

---
 coda/url_parser.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 54724d2..16a72da 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -6,6 +6,8 @@
 #include "string.h"
 #include "url_parser.hpp"
 
+#define MAX_LEN (UINT32_MAX - 16) /* lengths are kept in 32 bits; a scheme and a slash may be added */
+
 /* does [u] of [sz] bytes start with [prefix], ignoring case? */
 static bool starts_with(const char *u, size_t sz, const char *prefix, size_t prefix_len)
 {
@@ -33,8 +35,8 @@ coda_url::coda_url(const coda_url &u)
 		val_len = u.val_len;
 		dom_len = u.dom_len;
 
-		val_str = (char *) malloc(val_len + dom_len + 2);
-		memcpy(val_str, u.val_str, val_len + dom_len + 2);
+		val_str = (char *) malloc((size_t) val_len + dom_len + 2);
+		memcpy(val_str, u.val_str, (size_t) val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
 	}
@@ -62,8 +64,8 @@ coda_url &coda_url::operator= (const coda_url &u)
 		val_len = u.val_len;
 		dom_len = u.dom_len;
 
-		val_str = (char *) malloc(val_len + dom_len + 2);
-		memcpy(val_str, u.val_str, val_len + dom_len + 2);
+		val_str = (char *) malloc((size_t) val_len + dom_len + 2);
+		memcpy(val_str, u.val_str, (size_t) val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
 	}
@@ -100,6 +102,8 @@ int coda_url::create_absolute(const char *u, size_t sz, uint32_t flags)
 		return -1;
 	}
 
+	if (sz > MAX_LEN) return -1;
+
 	val_str = (char *) malloc(2 + 2 * sz + 9); // val + 0 + dom + 0 + "http[s]://" + "/"
 
 	create_scheme(u, sz, flags);
@@ -115,6 +119,8 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 		return -1;
 	}
 
+	if (sz > MAX_LEN || sz + parent.val_len > MAX_LEN) return -1;
+
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
 	if (starts_with(u, sz, "http://", 7) || starts_with(u, sz, "https://", 8))
-- 
2.43.0


From 4e4ede7d4749cb47f0581fdc681e0de6a8556a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:02 +0000
Subject: [PATCH 59/67] fix: URL objects survive running out of memory

---
 coda/url_parser.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 16a72da..ff9bdfb 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <sys/types.h>
+#include <new>
 #include "string.h"
 #include "url_parser.hpp"
 
@@ -14,6 +15,14 @@ static bool starts_with(const char *u, size_t sz, const char *prefix, size_t pre
 	return sz >= prefix_len && NULL != coda_strxstr(u, prefix, prefix_len);
 }
 
+static char *copy_of(const char *str, size_t sz)
+{
+	char *copy = (char *) malloc(sz);
+	if (NULL == copy) throw std::bad_alloc();
+
+	return (char *) memcpy(copy, str, sz);
+}
+
 coda_url::coda_url()
 {
 	val_str = dom_str = NULL;
@@ -35,8 +44,7 @@ coda_url::coda_url(const coda_url &u)
 		val_len = u.val_len;
 		dom_len = u.dom_len;
 
-		val_str = (char *) malloc((size_t) val_len + dom_len + 2);
-		memcpy(val_str, u.val_str, (size_t) val_len + dom_len + 2);
+		val_str = copy_of(u.val_str, (size_t) val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
 	}
@@ -46,6 +54,8 @@ coda_url &coda_url::operator= (const coda_url &u)
 {
 	if (this == &u) return *this;
 
+	char *str = u.empty() ? NULL : copy_of(u.val_str, (size_t) u.val_len + u.dom_len + 2); // before anything changes
+
 	if (allocated())
 	{
 		free(val_str);
@@ -64,8 +74,7 @@ coda_url &coda_url::operator= (const coda_url &u)
 		val_len = u.val_len;
 		dom_len = u.dom_len;
 
-		val_str = (char *) malloc((size_t) val_len + dom_len + 2);
-		memcpy(val_str, u.val_str, (size_t) val_len + dom_len + 2);
+		val_str = str;
 
 		dom_str = val_str + val_len + 1;
 	}
@@ -105,6 +114,7 @@ int coda_url::create_absolute(const char *u, size_t sz, uint32_t flags)
 	if (sz > MAX_LEN) return -1;
 
 	val_str = (char *) malloc(2 + 2 * sz + 9); // val + 0 + dom + 0 + "http[s]://" + "/"
+	if (NULL == val_str) return -1;
 
 	create_scheme(u, sz, flags);
 
@@ -122,6 +132,7 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 	if (sz > MAX_LEN || sz + parent.val_len > MAX_LEN) return -1;
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
+	if (NULL == val_str) return -1;
 
 	if (starts_with(u, sz, "http://", 7) || starts_with(u, sz, "https://", 8))
 	{
-- 
2.43.0


From 303c2ab9075952003dc120d60a2d176e0196a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:41 +0000
Subject: [PATCH 60/67] fix: an exception thrown while a document is parsed
 does not leak the parser

---
 coda/txml.cpp | 69 ++++++++++++++++++++++++++++++++++++++++++++-------
 coda/txml.hpp |  4 +++
 2 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index b16f260..4826505 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -57,19 +57,57 @@ void coda::txml_determination_object::load_from_string(const char* str, size_t l
 	p.parse(str, len, true);
 }
 
+/*
+ * An exception must not go through XML_Parse(): expat would not know that
+ * its handler is over, and XML_ParserFree() would leave everything allocated.
+ */
+
 static void cb_characters(void* vThis, const char* szData, int iLength)
 {
-	((coda::txml_parser*) vThis)->characters(szData, iLength);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+
+	if (p->failure) return;
+
+	try
+	{
+		p->characters(szData, iLength);
+	}
+	catch (...)
+	{
+		p->fail();
+	}
 }
 
 static void cb_begelement(void* vThis, const char* const szName, const char** pszAttributes)
 {
-	((coda::txml_parser*) vThis)->begelement(szName, pszAttributes);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+
+	if (p->failure) return;
+
+	try
+	{
+		p->begelement(szName, pszAttributes);
+	}
+	catch (...)
+	{
+		p->fail();
+	}
 }
 
 static void cb_endelement(void* vThis, const char* const szName)
 {
-	((coda::txml_parser*) vThis)->endelement(szName);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+
+	if (p->failure) return;
+
+	try
+	{
+		p->endelement(szName);
+	}
+	catch (...)
+	{
+		p->fail();
+	}
 }
 
 static int  cb_encunknown(void*, const XML_Char*, XML_Encoding*)
@@ -98,20 +136,33 @@ void coda::txml_parser::parse(const char* szDataSource, size_t iDataLength, bool
 
 	for (; iDataLength > iMaxPart; iDataLength -= iMaxPart, szDataSource += iMaxPart)
 	{
-		if (XML_STATUS_ERROR == XML_Parse(p, szDataSource, iMaxPart, 0))
-		{
-			raise(XML_ErrorString(XML_GetErrorCode(p)));
-		}
+		parse_part(szDataSource, iMaxPart, false);
 	}
 
-	int iFinal = bIsFinal;
+	parse_part(szDataSource, iDataLength, bIsFinal);
+}
 
-	if (XML_STATUS_ERROR == XML_Parse(p, szDataSource, iDataLength, iFinal))
+void coda::txml_parser::parse_part(const char* szDataSource, int iDataLength, bool bIsFinal)
+{
+	if (XML_STATUS_ERROR == XML_Parse(p, szDataSource, iDataLength, bIsFinal))
 	{
+		if (failure)
+		{
+			std::exception_ptr e = failure;
+			failure = nullptr;
+			std::rethrow_exception(e);
+		}
+
 		raise(XML_ErrorString(XML_GetErrorCode(p)));
 	}
 }
 
+void coda::txml_parser::fail()
+{
+	failure = std::current_exception();
+	XML_StopParser(p, XML_FALSE);
+}
+
 void coda::txml_parser::raise(const char* err)
 {
 	throw coda_error("XML error (%s): %s, line %d, column %d",
diff --git a/coda/txml.hpp b/coda/txml.hpp
index 023a09a..b76e451 100644
--- a/coda/txml.hpp
+++ b/coda/txml.hpp
@@ -3,6 +3,7 @@
 
 #include <stdint.h>
 #include <expat.h>
+#include <exception>
 #include <string>
 #include <vector>
 #include <list>
@@ -42,8 +43,11 @@ struct txml_parser
 	std::string current_value;
 	std::vector<level_desc> levels;
 	std::vector<level_desc>::iterator det_iter;
+	std::exception_ptr failure; /* thrown inside of XML_Parse() */
 
 	void parse(const char* szDataSource, size_t iDataLength, bool bIsFinal = true);
+	void parse_part(const char* szDataSource, int iDataLength, bool bIsFinal);
+	void fail();
 	void raise(const char* err);
 
 	void determine();
-- 
2.43.0


From 95dd2d73181d9b73725723d31d1beb7d61834f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 61/67] fix: errno among the arguments of a log message is the
 caller's

---
 coda/logger.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coda/logger.h b/coda/logger.h
index 9997814..b2a2643 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -55,16 +55,19 @@ extern "C" {
         const char* tname;                                                  \
         struct tm tmloc;                                                    \
         struct timeval tv;                                                  \
+        int errsv = errno; /* may be among the arguments */                 \
         gettimeofday(&tv, NULL);                                            \
         localtime_r(&tv.tv_sec, &tmloc);                                    \
                                                                             \
         if (NULL != (tname = log_thread_name_get()))                        \
         {                                                                   \
+            errno = errsv;                                                  \
             fprintf(fp, LOG_FORMAT(lvstr,"%s",fmt),                         \
                 LOG_VALUES(tmloc,tv,tname,##__VA_ARGS__));                  \
         }                                                                   \
         else                                                                \
         {                                                                   \
+            errno = errsv;                                                  \
             fprintf(fp, LOG_FORMAT(lvstr,"%lu",fmt),                        \
                 LOG_VALUES(tmloc,tv,(unsigned long)pthread_self(),##__VA_ARGS__)); \
         }                                                                   \
-- 
2.43.0


From d913f6cb5df470a6dc276861b0fecf30a6ab2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:00 +0000
Subject: [PATCH 62/67] fix: log_ret is an expression, log_die a single
 statement

---
 coda/logger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/logger.h b/coda/logger.h
index b2a2643..96fa27d 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -27,8 +27,8 @@ extern "C" {
 
 #define log_msg(lev,fmt,...) log_fmt(stderr,LOG_##lev,#lev,fmt,##__VA_ARGS__)
 #define log_err(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err))
-#define log_ret(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)), err
-#define log_die(err,fmt,...) log_msg(emerg,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE)
+#define log_ret(err,fmt,...) ({ int log_rc = (err); log_err(log_rc,fmt,##__VA_ARGS__); log_rc; })
+#define log_die(err,fmt,...) do { log_msg(emerg,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE); } while (0)
 
 #define log_access( fmt,...) log_msg(access,fmt,##__VA_ARGS__)
 #define log_emerg(  fmt,...) log_msg(emerg, fmt,##__VA_ARGS__)
-- 
2.43.0


From 3700ad1a221e26a1c1179ea094c34f93d8b37fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:25 +0000
Subject: [PATCH 63/67] fix: names inside the log macros do not hide the
 caller's

---
 coda/logger.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/coda/logger.h b/coda/logger.h
index 96fa27d..e68229e 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -52,24 +52,24 @@ extern "C" {
                                                                             \
     if (level <= log_level)                                                 \
     {                                                                       \
-        const char* tname;                                                  \
-        struct tm tmloc;                                                    \
-        struct timeval tv;                                                  \
-        int errsv = errno; /* may be among the arguments */                 \
-        gettimeofday(&tv, NULL);                                            \
-        localtime_r(&tv.tv_sec, &tmloc);                                    \
+        const char* log_tname;                                              \
+        struct tm log_tmloc;                                                \
+        struct timeval log_tv;                                              \
+        int log_errsv = errno; /* may be among the arguments */             \
+        gettimeofday(&log_tv, NULL);                                        \
+        localtime_r(&log_tv.tv_sec, &log_tmloc);                            \
                                                                             \
-        if (NULL != (tname = log_thread_name_get()))                        \
+        if (NULL != (log_tname = log_thread_name_get()))                    \
         {                                                                   \
-            errno = errsv;                                                  \
+            errno = log_errsv;                                              \
             fprintf(fp, LOG_FORMAT(lvstr,"%s",fmt),                         \
-                LOG_VALUES(tmloc,tv,tname,##__VA_ARGS__));                  \
+                LOG_VALUES(log_tmloc,log_tv,log_tname,##__VA_ARGS__));      \
         }                                                                   \
         else                                                                \
         {                                                                   \
-            errno = errsv;                                                  \
+            errno = log_errsv;                                              \
             fprintf(fp, LOG_FORMAT(lvstr,"%lu",fmt),                        \
-                LOG_VALUES(tmloc,tv,(unsigned long)pthread_self(),##__VA_ARGS__)); \
+                LOG_VALUES(log_tmloc,log_tv,(unsigned long)pthread_self(),##__VA_ARGS__)); \
         }                                                                   \
     }                                                                       \
                                                                             \
-- 
2.43.0


From 8c3c41daff26a7f932f99d4dbe65ad864dcad291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:18 +0000
Subject: [PATCH 64/67] fix: processes that create a shared map's lock together
 do not break it

---
 coda/shm_hash_map.tcc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 845e4e3..1cc2c9d 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -393,21 +393,11 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_sem(const char *key
 
 	if (-1 == (sem_id = semget(key, 2, 0)))
 	{
+		// both are created with 0, free; setting them here could undo a lock somebody already took
 		if (ENOENT != errno || -1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
 		{
 			throw coda_error("error getting sem: %s", coda_strerror(errno));
 		}
-
-		// now set initial values for _GUARD semaphores
-		if (-1 == semctl(sem_id, mySEM_R, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, mySEM_W, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
 	}
 }
 
-- 
2.43.0


From 9dd6a4f40e0bd8bacff2b111cfcf6e384963e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:34 +0000
Subject: [PATCH 65/67] fix: processes that create a shared queue's lock
 together do not break it

---
 coda/shm_queue.tcc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index cfa96ad..c0430fc 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -212,15 +212,22 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 		throw coda_error("shm_queue::queue<>: error creating key from file '%s': %s", key_fname, coda_strerror(errno));
 	}
 
-	if (-1 == (sem_id = semget(key, 2, 0)))
+	while (-1 == (sem_id = semget(key, 2, 0)))
 	{
-		if (ENOENT != errno || -1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
+		if (ENOENT != errno)
 		{
 			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
 		}
 
-		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1))
-		||  -1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)))
+		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | IPC_EXCL | 0666)))
+		{
+			if (EEXIST == errno) continue; // somebody else creates it
+
+			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
+		}
+
+		// the counter is created with 0 and in use as soon as the lock is set
+		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
 		{
 			int err = errno;
 
@@ -229,6 +236,8 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 
 			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(err));
 		}
+
+		break;
 	}
 }
 
-- 
2.43.0


From 0222b4287a0631131c5ea0e11ecd192bb21cc052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:00 +0000
Subject: [PATCH 66/67] fix: a process that dies while it creates a shared
 queue does not leave it unusable

---
 coda/shm_queue.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index c0430fc..279be37 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -152,11 +152,12 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	info = (shm_queue::queue_info *) ptr;
 
-	if (created || (0 == info->box_size && 0 == info->size)) // or nobody got as far as initializing it
+	if (created || 0 == info->size) // or nobody got as far as initializing it
 	{
 		memset(ptr, 0, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
-		info->size = MAX_BOXES_IN_QUEUE;
+		__sync_synchronize();
+		info->size = MAX_BOXES_IN_QUEUE; // last: the process may die before
 	}
 
 	ptr += sizeof(shm_queue::queue_info);
-- 
2.43.0


From 8fd5d7ecd58da01bc935f0b1bc2200c41c233180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:18 +0000
Subject: [PATCH 67/67] fix: a process that dies while it creates a shared map
 does not leave it unusable

---
 coda/shm_hash_map.tcc | 6 ++++--
 coda/shm_pool.tcc     | 5 +++--
 coda/shm_stack.tcc    | 5 +++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 1cc2c9d..79ada0a 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -50,10 +50,9 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::attach(void * mem_begin) th
 	int map_data_size = floor1024(nodes_pool.data_size());
 	uint8_t *hash_p = mem_p + map_header_size + map_stacks_size + map_data_size;
 
-	if (0 == *objects_num && 0 == *item_size && 0 == *hash_size)
+	if (0 == *objects_num)
 	{
 		// kto perviy vstal togo i tapki!
-		*objects_num = _OBJECTS_NUM;
 		*item_size = sizeof(_Type);
 		*hash_size = _HASH_SIZE;
 
@@ -61,6 +60,9 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::attach(void * mem_begin) th
 		{
 			((uint32_t *) hash_p)[i] = (uint32_t)(-1);
 		}
+
+		__sync_synchronize();
+		*objects_num = _OBJECTS_NUM; // last: the process may die before
 	}
 	else if (_OBJECTS_NUM != *objects_num || sizeof(_Type) != *item_size || _HASH_SIZE != *hash_size)
 	{
diff --git a/coda/shm_pool.tcc b/coda/shm_pool.tcc
index 982fbdd..edb579f 100644
--- a/coda/shm_pool.tcc
+++ b/coda/shm_pool.tcc
@@ -24,12 +24,13 @@ void shm::pool<_Type, _OBJECTS_NUM>::attach(void *header_begin, void *stack_begi
 
 	data = (_Type *) objects_begin;
 
-	if (0 == *reserved && 0 == *item_size)
+	if (0 == *reserved)
 	{
 		//kto perviy vstal togo i tapki!
-		*reserved = _OBJECTS_NUM;
 		*item_size = sizeof(_Type);
 		*current = 0;
+		__sync_synchronize();
+		*reserved = _OBJECTS_NUM; // last: the process may die before
 	}
 	else if (_OBJECTS_NUM != *reserved || sizeof(_Type) != *item_size)
 	{
diff --git a/coda/shm_stack.tcc b/coda/shm_stack.tcc
index d291b61..0b5ec8a 100644
--- a/coda/shm_stack.tcc
+++ b/coda/shm_stack.tcc
@@ -22,12 +22,13 @@ inline void shm::stack<_Type, _OBJECTS_NUM>::attach(void * header_begin, void *
 
 	data = (_Type *) block_begin;
 
-	if (0 == *reserved && 0 == *item_size)
+	if (0 == *reserved)
 	{
 		//kto perviy vstal togo i tapki!
-		*reserved = _OBJECTS_NUM;
 		*item_size = sizeof(_Type);
 		*current = (uint32_t)(-1);
+		__sync_synchronize();
+		*reserved = _OBJECTS_NUM; // last: the process may die before
 	}
 	else if (_OBJECTS_NUM != *reserved || sizeof(_Type) != *item_size)
 	{
-- 
2.43.0

