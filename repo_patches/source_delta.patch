From d2284ea3f3146cc4f07ceecc3ab485c1b431ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 001/127] fix: conversions of numbers outside int64 to 8/16/32
 bit integers are modulo 2^n

---
 include/ratjs/rjs_operation.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index cd5419e..f1a024f 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -723,6 +723,21 @@ rjs_to_integer_or_infinity (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
     return RJS_OK;
 }
 
+/**
+ * Truncate the finite number to an integer congruent to it modulo 2^32.
+ * \param n The finite number.
+ * \return The integer.
+ */
+static inline int64_t
+rjs_number_to_int64_modulo (RJS_Number n)
+{
+    /*Out of the range of int64_t, the number is an integer.*/
+    if ((n >= 9223372036854775808.0) || (n < -9223372036854775808.0))
+        n = fmod(n, 4294967296.0);
+
+    return (int64_t)n;
+}
+
 /**
  * Convert the value to 8 bits signed integer.
  * \param rt The current runtime.
@@ -743,7 +758,7 @@ rjs_to_int8 (RJS_Runtime *rt, RJS_Value *v, int8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_modulo(n);
     }
 
     return RJS_OK;
@@ -769,7 +784,7 @@ rjs_to_uint8 (RJS_Runtime *rt, RJS_Value *v, uint8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_modulo(n);
     }
 
     return RJS_OK;
@@ -834,7 +849,7 @@ rjs_to_int16 (RJS_Runtime *rt, RJS_Value *v, int16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_modulo(n);
     }
 
     return RJS_OK;
@@ -860,7 +875,7 @@ rjs_to_uint16 (RJS_Runtime *rt, RJS_Value *v, uint16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_modulo(n);
     }
 
     return RJS_OK;
@@ -886,7 +901,7 @@ rjs_to_int32 (RJS_Runtime *rt, RJS_Value *v, int32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_modulo(n);
     }
 
     return RJS_OK;
@@ -912,7 +927,7 @@ rjs_to_uint32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_modulo(n);
     }
 
     return RJS_OK;
-- 
2.43.0


From 7f8c351c41a3344cc63b05c94891184cdb5e7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 002/127] fix: the unsigned right shift converts its operands
 to uint32 and masks the count

---
 src/lib/rjs_number.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_number.c b/src/lib/rjs_number.c
index 2df6116..7a1606c 100644
--- a/src/lib/rjs_number.c
+++ b/src/lib/rjs_number.c
@@ -95,9 +95,14 @@ rjs_number_signed_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJ
 void
 rjs_number_unsigned_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
 {
-    uint32_t n1 = rjs_value_get_number(rt, v1);
-    uint32_t n2 = rjs_value_get_number(rt, v2);
-    uint32_t rn = n1 >> n2;
+    uint32_t n1 = 0;
+    uint32_t n2 = 0;
+    uint32_t rn;
+
+    rjs_to_uint32(rt, v1, &n1);
+    rjs_to_uint32(rt, v2, &n2);
+
+    rn = n1 >> (n2 & 31);
 
     rjs_value_set_number(rt, rv, rn);
 }
-- 
2.43.0


From 0f1d1340f9b37d5cce822b91750b1808178fe1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 003/127] fix: relational comparison converts its operands with
 the hint number

---
 src/lib/rjs_bc_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 03974fe..c2ee7f5 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -601,9 +601,9 @@ do_bc_compare (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     RJS_Value *n2  = rjs_value_stack_push(rt);
     RJS_Result r;
 
-    if ((r = rjs_to_primitive(rt, v1, p1, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v1, p1, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
-    if ((r = rjs_to_primitive(rt, v2, p2, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v2, p2, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
 
     if (rjs_value_is_string(rt, p1) && rjs_value_is_string(rt, p2)) {
-- 
2.43.0


From 5aefaab0fd5da967463185d94a3f040e1f42024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 004/127] fix: only canonical decimal strings are array indices

---
 src/lib/rjs_string.c | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index d0e2059..b321221 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -494,24 +494,17 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     uc  = string_get_uchars(s);
     len = s->length;
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            break;
-
-        uc  ++;
-        len --;
-    }
-
+    /*Only the canonical decimal representation is an index.*/
     if (!len)
         goto end;
-        
-    if (!rjs_uchar_is_digit(*uc))
+
+    if ((*uc == '0') && (len > 1))
         goto end;
 
     n = 0;
     while (len) {
         if (!rjs_uchar_is_digit(*uc))
-            break;
+            goto end;
 
         n *= 10;
         n += *uc - '0';
@@ -523,14 +516,6 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
         len --;
     }
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            goto end;
-
-        uc  ++;
-        len --;
-    }
-
     is_idx = RJS_TRUE;
     *pi    = n;
 end:
-- 
2.43.0


From c21f9bb1eb0a8035d91fa6b2d7b5a56c64fb5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 005/127] fix: the in operator converts its left operand after
 checking the right one

---
 src/lib/rjs_bc_call.c | 24 +++++++++++++++++++++++-
 src/lib/rjs_bc_gen.c  |  9 +--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index c2ee7f5..75ce98c 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -715,8 +715,30 @@ end:
         goto error;\
     rjs_value_set_boolean(rt, result, !r);
 
+/*Check if the object has the property.*/
+static RJS_Result
+do_bc_has_prop (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p)
+{
+    size_t     top = rjs_value_stack_save(rt);
+    RJS_Value *key = rjs_value_stack_push(rt);
+    RJS_Result r;
+
+    if (!rjs_value_is_object(rt, o)) {
+        r = rjs_throw_type_error(rt, _("the value is not an object"));
+        goto end;
+    }
+
+    if ((r = rjs_to_property_key(rt, p, key)) == RJS_ERR)
+        goto end;
+
+    r = rjs_has_property(rt, o, key);
+end:
+    rjs_value_stack_restore(rt, top);
+    return r;
+}
+
 #define bc_has_prop(operand1, operand2, result)\
-    if ((r = rjs_has_property(rt, operand1, operand2)) == RJS_ERR)\
+    if ((r = do_bc_has_prop(rt, operand1, operand2)) == RJS_ERR)\
         goto error;\
     rjs_value_set_boolean(rt, result, r);
 
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 022eb19..2703dbc 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1284,14 +1284,7 @@ bc_gen_in_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstBinaryExpr *expr, int rid
     } else
 #endif /*ENABLE_PRIV_NAME*/
     {
-        int tr = bc_reg_add(rt, bg);
-
-        bc_gen_expr(rt, bg, ast, tr);
-
-        cid = bc_cmd_add(rt, bg, RJS_BC_to_prop, line);
-        cmd = bc_cmd_get(bg, cid);
-        cmd->unary.operand = tr;
-        cmd->unary.result  = r1;
+        bc_gen_expr(rt, bg, ast, r1);
 
         bc_type = RJS_BC_has_prop;
     }
-- 
2.43.0


From aa9af7f6536b09e7a52e2978cfa5289f9c848346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 006/127] fix: parseInt and parseFloat only take the digits of
 their grammar

---
 src/lib/rjs_global_object.c | 93 +++++++++++++++++++++++--------------
 src/lib/rjs_strtoi.c        | 49 ++++++++++++++++++-
 2 files changed, 105 insertions(+), 37 deletions(-)

diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index f173525..4c043f2 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -128,17 +128,35 @@ static RJS_NF(global_isNaN)
     return RJS_OK;
 }
 
+/*Get the leading ASCII characters of the trimmed string.*/
+static const char*
+global_ascii_prefix (RJS_Runtime *rt, RJS_Value *str, RJS_CharBuffer *cb)
+{
+    const RJS_UChar *b, *e;
+
+    b = rjs_string_get_uchars(rt, str);
+    e = b + rjs_string_get_length(rt, str);
+
+    while ((b < e) && rjs_uchar_is_white_space(*b))
+        b ++;
+
+    while ((b < e) && *b && (*b < 0x80)) {
+        rjs_char_buffer_append_char(rt, cb, *b);
+        b ++;
+    }
+
+    return rjs_char_buffer_to_c_string(rt, cb);
+}
+
 /*parseFloat*/
 static RJS_NF(global_parseFloat)
 {
     RJS_Value     *arg  = rjs_argument_get(rt, args, argc, 0);
     size_t         top  = rjs_value_stack_save(rt);
     RJS_Value     *str  = rjs_value_stack_push(rt);
-    RJS_Value     *trim = rjs_value_stack_push(rt);
     RJS_CharBuffer cb;
-    const char    *cstr;
+    const char    *cstr, *c;
     char          *end;
-    size_t         len;
     double         d;
     RJS_Result     r;
 
@@ -147,21 +165,19 @@ static RJS_NF(global_parseFloat)
     if ((r = rjs_to_string(rt, arg, str)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_string_trim(rt, str, RJS_STRING_TRIM_START|RJS_STRING_TRIM_END, trim)) == RJS_ERR)
-        goto end;
+    c = cstr = global_ascii_prefix(rt, str, &cb);
 
-    cstr = rjs_string_to_enc_chars(rt, trim, &cb, "UTF-8");
-    len  = strlen(cstr);
+    if ((*c == '+') || (*c == '-'))
+        c ++;
 
-    if (len == 0) {
-        d = NAN;
-    } else {
+    if (!strncmp(c, "Infinity", 8)) {
+        d = (*cstr == '-') ? -INFINITY : INFINITY;
+    } else if (isdigit(*c) || (*c == '.')) {
         d = rjs_strtod(cstr, &end);
-        if (end == cstr) {
+        if (end == cstr)
             d = NAN;
-        } else if ((errno == ERANGE) && ((d == HUGE_VAL) || (d == -HUGE_VAL))) {
-            d = NAN;
-        }
+    } else {
+        d = NAN;
     }
 
     rjs_value_set_number(rt, rv, d);
@@ -180,11 +196,9 @@ static RJS_NF(global_parseInt)
     RJS_Value     *radixv = rjs_argument_get(rt, args, argc, 1);
     size_t         top    = rjs_value_stack_save(rt);
     RJS_Value     *str    = rjs_value_stack_push(rt);
-    RJS_Value     *trim   = rjs_value_stack_push(rt);
     RJS_CharBuffer cb;
     const char    *cstr;
-    char          *end;
-    size_t         len;
+    char          *c, *end;
     int32_t        base;
     double         d;
     RJS_Result     r;
@@ -194,9 +208,6 @@ static RJS_NF(global_parseInt)
     if ((r = rjs_to_string(rt, arg, str)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_string_trim(rt, str, RJS_STRING_TRIM_START|RJS_STRING_TRIM_END, trim)) == RJS_ERR)
-        goto end;
-
     if ((r = rjs_to_int32(rt, radixv, &base)) == RJS_ERR)
         goto end;
 
@@ -209,30 +220,42 @@ static RJS_NF(global_parseInt)
         }
     }
 
-    cstr = rjs_string_to_enc_chars(rt, trim, &cb, "UTF-8");
-    if (!cstr) {
-        rjs_value_set_number(rt, rv, NAN);
-        goto end;
-    }
+    cstr = global_ascii_prefix(rt, str, &cb);
 
-    len = strlen(cstr);
-    if (len == 0) {
-        rjs_value_set_number(rt, rv, NAN);
-        goto end;
+    c = (char*)cstr;
+    if ((*c == '+') || (*c == '-'))
+        c ++;
+
+    if (((base == 0) || (base == 16)) && (c[0] == '0') && ((c[1] == 'x') || (c[1] == 'X'))) {
+        c   += 2;
+        base = 16;
+        if (!isxdigit(*c))
+            *c = 0;
+    } else if (base == 0) {
+        base = 10;
     }
 
-    d = rjs_strtoi(cstr, &end, base);
+    /*Only keep the digits.*/
+    if (base == 10) {
+        for (end = c; isdigit(*end); end ++);
 
-    if (end == cstr) {
-        rjs_value_set_number(rt, rv, NAN);
-        goto end;
+        *end = 0;
     }
 
-    if ((d == INFINITY) || (d == -INFINITY))
+    if (!isalnum(*c)) {
         d = NAN;
+    } else if ((base == 16) && (c[0] == '0') && ((c[1] == 'x') || (c[1] == 'X'))) {
+        d = 0;
+    } else {
+        d = rjs_strtoi(c, &end, base);
+        if (end == c)
+            d = NAN;
+    }
+
+    if (*cstr == '-')
+        d = -d;
 
     rjs_value_set_number(rt, rv, d);
-    r = RJS_OK;
 end:
     rjs_char_buffer_deinit(rt, &cb);
     rjs_value_stack_restore(rt, top);
diff --git a/src/lib/rjs_strtoi.c b/src/lib/rjs_strtoi.c
index e30d5e6..63612fe 100644
--- a/src/lib/rjs_strtoi.c
+++ b/src/lib/rjs_strtoi.c
@@ -38,6 +38,10 @@ rjs_strtoi (const char *str, char **end, int base)
     const char *p    = str;
     int         sign = 1;
     double      d    = 0;
+    uint64_t    m    = 0;
+    int64_t     exp  = 0;
+    int         bits = 0;
+    const char *b;
 
     assert((base == 0) || ((base >= 2) && (base <= 36)));
 
@@ -69,6 +73,27 @@ rjs_strtoi (const char *str, char **end, int base)
     if (base == 10)
         return rjs_strtod(str, end);
 
+    /*If the base is a power of 2, the result can be rounded exactly.*/
+    switch (base) {
+    case 2:
+        bits = 1;
+        break;
+    case 4:
+        bits = 2;
+        break;
+    case 8:
+        bits = 3;
+        break;
+    case 16:
+        bits = 4;
+        break;
+    case 32:
+        bits = 5;
+        break;
+    }
+
+    b = p;
+
     while (*p) {
         int v;
 
@@ -93,11 +118,31 @@ rjs_strtoi (const char *str, char **end, int base)
             }
         }
 
-        d *= base;
-        d += v;
+        if (bits) {
+            if (m >> (63 - bits)) {
+                /*Keep the discarded bits in the last bit.*/
+                exp += bits;
+                if (v)
+                    m |= 1;
+            } else {
+                m <<= bits;
+                m |= v;
+            }
+        } else {
+            d *= base;
+            d += v;
+        }
+
         p ++;
     }
 
+    if (bits)
+        d = ldexp(m, (exp > 2000) ? 2000 : exp);
+
+    /*No digit.*/
+    if (p == b)
+        p = str;
+
     if (end)
         *end = (char*)p;
 
-- 
2.43.0


From 2ddf6ba4749eb7a7dbb106a5a20ed1f7afef7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 007/127] fix: strings are converted to numbers by the numeric
 string grammar, not by the script lexer

---
 src/lib/rjs_string.c | 180 +++++++++++++++++++++++--------------------
 1 file changed, 95 insertions(+), 85 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index b321221..54cf020 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -574,121 +574,131 @@ end:
 static RJS_Result
 parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v)
 {
-    RJS_Input   si;
-    RJS_Lex     lex;
-    RJS_Token   tok;
-    RJS_Result  r;
-    int         sign = 0;
+    const RJS_UChar *b, *e;
+    const char      *cstr, *c;
+    char            *end;
+    RJS_CharBuffer   cb;
+    RJS_Number       n;
+    RJS_Result       r    = RJS_FALSE;
+    int              sign = 0;
+    int              base = 10;
 
-    if ((r = rjs_string_input_init(rt, &si, str)) == RJS_ERR)
-        return r;
+    rjs_char_buffer_init(rt, &cb);
 
-    rjs_token_init(rt, &tok);
+    b = rjs_string_get_uchars(rt, str);
+    e = b + rjs_string_get_length(rt, str);
 
-    rjs_lex_init(rt, &lex, &si);
+    while ((b < e) && rjs_uchar_is_white_space(*b))
+        b ++;
+    while ((e > b) && rjs_uchar_is_white_space(e[-1]))
+        e --;
 
-    si.flags   |= RJS_INPUT_FL_NO_MSG;
-    lex.status &= ~RJS_LEX_ST_FIRST_TOKEN;
-    lex.status |= RJS_LEX_ST_NO_MSG|RJS_LEX_ST_NO_SEP|RJS_LEX_ST_NO_LEGACY_OCT;
+    /*Every numeric literal is made of ASCII characters.*/
+    for (; b < e; b ++) {
+        if (!*b || (*b > 0x7f))
+            goto end;
 
-    if (is_big_int)
-        lex.flags |= RJS_LEX_FL_BIG_INT;
+        rjs_char_buffer_append_char(rt, &cb, *b);
+    }
 
-    if ((r = rjs_lex_get_token(rt, &lex, &tok)) == RJS_ERR)
-        goto end;
+    c = cstr = rjs_char_buffer_to_c_string(rt, &cb);
 
-    if (tok.type == RJS_TOKEN_plus) {
-        sign = 1;
-        if ((r = rjs_lex_get_token(rt, &lex, &tok)) == RJS_ERR)
-            goto end;
-    } else if (tok.type == RJS_TOKEN_minus) {
-        sign = 2;
-        if ((r = rjs_lex_get_token(rt, &lex, &tok)) == RJS_ERR)
-            goto end;
+    if (!*c) {
+        n = 0;
+#if ENABLE_BIG_INT
+        if (is_big_int)
+            rjs_big_int_from_int(rt, v, 0);
+#endif /*ENABLE_BIG_INT*/
+        r = RJS_OK;
+        goto end;
     }
 
-    if (tok.type == RJS_TOKEN_NUMBER) {
-        if (sign && !(tok.flags & RJS_TOKEN_FL_DECIMAL)) {
-            r = RJS_FALSE;
-            goto end;
+    if ((*c == '+') || (*c == '-')) {
+        sign = *c;
+        c ++;
+    } else if (*c == '0') {
+        switch (c[1]) {
+        case 'x':
+        case 'X':
+            base = 16;
+            break;
+        case 'o':
+        case 'O':
+            base = 8;
+            break;
+        case 'b':
+        case 'B':
+            base = 2;
+            break;
         }
 
-#if ENABLE_BIG_INT
-        if (is_big_int) {
-            if (rjs_value_is_big_int(rt, tok.value)) {
-                if (sign == 2) {
-                    rjs_big_int_unary_minus(rt, tok.value, v);
-                } else {
-                    rjs_value_copy(rt, v, tok.value);
-                }
-            } else {
-                int64_t i = rjs_value_get_number(rt, tok.value);
-
-                if (sign == 2)
-                    i = -i;
+        if (base != 10)
+            c += 2;
+    }
 
-                rjs_big_int_from_int64(rt, v, i);
-            }
-        } else
-#endif /*ENABLE_BIG_INT*/
-        {
-            if (rjs_value_is_number(rt, tok.value)) {
-                RJS_Number n = rjs_value_get_number(rt, tok.value);
+    /*The sign or prefix must be followed by digits.*/
+    if (!isalnum(*c) && (*c != '.'))
+        goto end;
 
-                if (sign == 2)
-                    n = -n;
+#if ENABLE_BIG_INT
+    if (is_big_int) {
+        const char *p;
+        RJS_Value  *bi;
+        size_t      top;
 
-                rjs_value_set_number(rt, v, n);
-            } else {
-                r = RJS_FALSE;
+        for (p = c; *p; p ++) {
+            if (!isxdigit(*p) || (rjs_hex_char_to_number(*p) >= base))
                 goto end;
-            }
         }
 
-        if ((r = rjs_lex_get_token(rt, &lex, &tok)) == RJS_ERR)
-            goto end;
-    } else if (!is_big_int
-            && (tok.type == RJS_TOKEN_IDENTIFIER)
-            && rjs_string_equal(rt, tok.value, rjs_s_Infinity(rt))) {
-        rjs_value_set_number(rt, v, (sign == 2) ? -INFINITY : INFINITY);
+        top = rjs_value_stack_save(rt);
+        bi  = rjs_value_stack_push(rt);
 
-        if ((r = rjs_lex_get_token(rt, &lex, &tok)) == RJS_ERR)
-            goto end;
-    } else {
-        if (sign) {
-            r = RJS_FALSE;
-            goto end;
-        }
+        rjs_big_int_from_chars(rt, bi, c, base);
 
-#if ENABLE_BIG_INT
-        if (is_big_int)
-            rjs_big_int_from_int(rt, v, 0);
+        if (sign == '-')
+            rjs_big_int_unary_minus(rt, bi, v);
         else
-#endif /*ENABLE_BIG_INT*/
-            rjs_value_set_number(rt, v, (sign == 2) ? -0. : 0.);
+            rjs_value_copy(rt, v, bi);
+
+        rjs_value_stack_restore(rt, top);
+        r = RJS_OK;
+        goto end;
     }
+#endif /*ENABLE_BIG_INT*/
 
-    r = RJS_OK;
+    if (base != 10) {
+        /*No more prefix.*/
+        if ((base == 16) && (c[0] == '0') && ((c[1] == 'x') || (c[1] == 'X')))
+            goto end;
 
-    if (tok.type != RJS_TOKEN_END)
-        r = RJS_FALSE;
+        n = rjs_strtoi(c, &end, base);
+    } else if (!strcmp(c, "Infinity")) {
+        n   = INFINITY;
+        end = (char*)c + strlen(c);
+    } else if (isdigit(*c) || (*c == '.')) {
+        n = rjs_strtod(c, &end);
+    } else {
+        goto end;
+    }
 
-    if (rjs_lex_error(&lex))
-        r = RJS_FALSE;
+    if ((end == c) || *end)
+        goto end;
 
+    if (sign == '-')
+        n = -n;
+
+    r = RJS_OK;
 end:
-    if (r == RJS_FALSE) {
 #if ENABLE_BIG_INT
-        if (is_big_int)
+    if (is_big_int) {
+        if (r != RJS_OK)
             rjs_value_set_undefined(rt, v);
-        else
+    } else
 #endif /*ENABLE_BIG_INT*/
-            rjs_value_set_number(rt, v, NAN);
-    }
+        rjs_value_set_number(rt, v, (r == RJS_OK) ? n : NAN);
 
-    rjs_lex_deinit(rt, &lex);
-    rjs_token_deinit(rt, &tok);
-    rjs_input_deinit(rt, &si);
+    rjs_char_buffer_deinit(rt, &cb);
     return RJS_OK;
 }
 
-- 
2.43.0


From ba6d5f3e5653814b5da32f473a53156f7f1bdab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 008/127] fix: Number.prototype.toString converts fractions and
 large integers with the radix

---
 src/lib/rjs_number_object_inc.c | 128 +++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 52 deletions(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 9f304f2..0d89128 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -575,12 +575,83 @@ end:
     return r;
 }
 
+/*Convert the finite number to string with the radix.*/
+static RJS_Result
+number_to_radix_string (RJS_Runtime *rt, RJS_Number n, int radix, RJS_Value *rv)
+{
+    static const char digits[] = "0123456789abcdefghijklmnopqrstuvwxyz";
+    char       buf[2300];
+    char      *point = buf + 1100;
+    char      *begin = point;
+    char      *end   = point;
+    RJS_Number v     = fabs(n);
+    RJS_Number i     = floor(v);
+    RJS_Number f     = v - i;
+    RJS_Number delta = 0.5 * (nextafter(v, INFINITY) - v);
+    uint64_t   left;
+    int        d;
+
+    /*Fraction digits, as many as are needed to identify the number.*/
+    if (delta == 0)
+        delta = nextafter(0, 1);
+
+    if (f >= delta) {
+        *end ++ = '.';
+
+        do {
+            f     *= radix;
+            delta *= radix;
+
+            d = (int)f;
+            *end ++ = digits[d];
+
+            f -= d;
+
+            if (((f > 0.5) || ((f == 0.5) && (d & 1))) && (f + delta > 1)) {
+                /*Round up.*/
+                while (1) {
+                    end --;
+
+                    if (end == point) {
+                        i += 1;
+                        break;
+                    }
+
+                    d = (*end > '9') ? *end - 'a' + 10 : *end - '0';
+                    if (d + 1 < radix) {
+                        *end ++ = digits[d + 1];
+                        break;
+                    }
+                }
+                break;
+            }
+        } while (f >= delta);
+    }
+
+    /*Integer digits, the digits out of the precision are filled with 0.*/
+    while (i >= 9223372036854775808.0) {
+        i /= radix;
+        *-- begin = '0';
+    }
+
+    left = i;
+
+    do {
+        *-- begin = digits[left % radix];
+        left /= radix;
+    } while (left);
+
+    if (n < 0)
+        *-- begin = '-';
+
+    return rjs_string_from_chars(rt, rv, begin, end - begin);
+}
+
 /*Number.prototype.toString*/
 static RJS_NF(Number_prototype_toString)
 {
     RJS_Value *radixv = rjs_argument_get(rt, args, argc, 0);
     RJS_Number n, rn;
-    int64_t    i;
     int        radix;
     RJS_Result r;
 
@@ -606,57 +677,10 @@ static RJS_NF(Number_prototype_toString)
         goto end;
     }
 
-    i = n;
-    if (n == (RJS_Number)i) {
-        char    buf[256];
-        char   *c;
-        int     sign;
-        int64_t left;
-
-        if (i < 0) {
-            sign = 1;
-            i    = -i;
-        } else {
-            sign = 0;
-        }
-
-        c = buf + RJS_N_ELEM(buf) - 1;
-        *c -- = 0;
-
-        left = i;
-
-        while (1) {
-            int n;
-            int end;
-
-            if (left < radix) {
-                n   = left;
-                end = 1;
-            } else {
-                n     = left % radix;
-                left /= radix;
-                end   = 0;
-            }
-
-            if (n < 10)
-                *c = n + '0';
-            else
-                *c = n - 10 + 'a';
-
-            c --;
-
-            if (end)
-                break;
-        }
-
-        if (sign)
-            *c -- = '-';
-
-        r = rjs_string_from_chars(rt, rv, c + 1, -1);
-            goto end;
-    }
-
-    r = rjs_number_to_string(rt, n, rv);
+    if (isnan(n) || isinf(n))
+        r = rjs_number_to_string(rt, n, rv);
+    else
+        r = number_to_radix_string(rt, n, radix, rv);
 end:
     return r;
 }
-- 
2.43.0


From 1e917f1a0e28af5ed1a4eb89a5a45a26afd884cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 009/127] fix: only canonical indices address the characters of
 a String object

---
 src/lib/rjs_primitive_object.c | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/lib/rjs_primitive_object.c b/src/lib/rjs_primitive_object.c
index a08c7e0..b83004e 100644
--- a/src/lib/rjs_primitive_object.c
+++ b/src/lib/rjs_primitive_object.c
@@ -65,31 +65,15 @@ static RJS_Result
 string_get_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p, RJS_PropertyDesc *pd)
 {
     RJS_PrimitiveObject *po;
-    RJS_Result           r;
-    RJS_Number           n;
-    uint64_t             idx;
+    int64_t              idx;
     size_t               len;
 
-    if (rjs_value_is_string(rt, p)) {
-        if ((r = rjs_to_number(rt, p, &n)) == RJS_ERR)
-            return r;
-    } else {
-        return RJS_FALSE;
-    }
-
-    if (isinf(n) || isnan(n))
-        return RJS_FALSE;
-
-    if (signbit(n))
-        return RJS_FALSE;
-
-    if (floor(n) != n)
+    if (!rjs_value_is_string(rt, p) || !rjs_string_to_index(rt, p, &idx))
         return RJS_FALSE;
 
     po  = (RJS_PrimitiveObject*)rjs_value_get_object(rt, o);
     len = rjs_string_get_length(rt, &po->value);
 
-    idx = n;
     if (idx >= len)
         return RJS_FALSE;
 
-- 
2.43.0


From d9f8af12ab0ecfb8aa4177590e30bd605804f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 010/127] fix: property references in arrow function parameters
 belong to the arrow function

---
 src/lib/rjs_bc_gen.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 2703dbc..f0dd76a 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -105,6 +105,26 @@ bc_ast_get (RJS_Runtime *rt, RJS_Value *v)
     return (RJS_Ast*)rjs_value_get_gc_thing(rt, v);
 }
 
+/*Get the current function's property reference.*/
+static RJS_AstPropRef*
+bc_prop_ref_get (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstPropRef *pr)
+{
+    size_t     top;
+    RJS_Value *tmp;
+
+    /*The expression may be parsed before its function is created.
+     e.g. the initializers of an arrow function's parameters.*/
+    if (pr->func == bg->func_ast)
+        return pr;
+
+    top = rjs_value_stack_save(rt);
+    tmp = rjs_value_stack_push(rt);
+    pr  = rjs_code_gen_prop_ref(rt, tmp, &pr->ast.location, bg->func_ast, &pr->prop->value);
+    rjs_value_stack_restore(rt, top);
+
+    return pr;
+}
+
 /*Add a new command with stack depth update.*/
 static int
 bc_cmd_add_stack_check (RJS_Runtime *rt, RJS_BcGen *bg, RJS_BcType type, int line, RJS_Bool stack_update)
@@ -484,7 +504,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         if (ast->type == RJS_AST_PropRef) {
             RJS_AstPropRef *pr = (RJS_AstPropRef*)ast;
 
-            ref->ref_name_prop = pr;
+            ref->ref_name_prop = bc_prop_ref_get(rt, bg, pr);
 
             line = line1;
 
@@ -530,7 +550,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         if (ast->type == RJS_AST_PropRef) {
             RJS_AstPropRef *pr = (RJS_AstPropRef*)ast;
 
-            ref->ref_name_prop = pr;
+            ref->ref_name_prop = bc_prop_ref_get(rt, bg, pr);
         } else {
             int tmp_rid = bc_reg_add(rt, bg);
 
@@ -562,7 +582,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         bc_gen_expr(rt, bg, ast, ref->base_rid);
 
         pir = bc_ast_get(rt, &be->operand2);
-        ref->ref_name_prop = bc_ast_get(rt, &pir->prop_ref);
+        ref->ref_name_prop = bc_prop_ref_get(rt, bg, bc_ast_get(rt, &pir->prop_ref));
         break;
     }
 #endif /*ENABLE_PRIV_NAME*/
-- 
2.43.0


From 17e468ed9363f2d238a07da2c8bf5f40b51a7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 011/127] fix: break and continue in a finally block override a
 pending return

---
 src/lib/rjs_bc_call.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 75ce98c..e058364 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1121,15 +1121,7 @@ end:
             sc->ip = s->s.s_try.finally_ip;\
             goto restart;\
         case RJS_TRY_STATE_FINALLY:\
-            switch (s->s.s_try.next_op) {\
-            case RJS_TRY_NEXT_OP_NORMAL:\
-            case RJS_TRY_NEXT_OP_THROW:\
-                break;\
-            case RJS_TRY_NEXT_OP_RETURN:\
-                rjs_state_pop(rt);\
-                r = RJS_RETURN;\
-                goto ret;\
-            }\
+            /*Leaving the finally block overrides the previous completion.*/\
             break;\
         case RJS_TRY_STATE_END:\
             switch (s->s.s_try.next_op) {\
@@ -1341,7 +1333,7 @@ restart:
         }
     }
 
-    rjs_value_set_undefined(rt, rv);
+    rjs_value_set_undefined(rt, &sc->retv);
 
     r = RJS_OK;
 ret:
-- 
2.43.0


From 362f0dffdbd91d4ff3c4a3b74322d17753004a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 012/127] fix: catch without parameter keeps the declaration
 stack, labels of try statements cover catch and finally

---
 src/lib/rjs_bc_gen.c | 24 +++++++++++++-----------
 src/lib/rjs_parser.c | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index f0dd76a..9a3fe9f 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3550,16 +3550,16 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
         cmd->load.dest = bg->rv_reg;
     }
 
-    cid = bc_cmd_add(rt, bg, RJS_BC_push_try, line);
-    cmd = bc_cmd_get(bg, cid);
-    cmd->push_try.catch_label = lc;
-    cmd->push_try.final_label = lf;
-
     lb = bc_label_add(rt, bg);
 
     ts->break_js.label  = lb;
     ts->break_js.rv_reg = bg->rv_reg;
 
+    cid = bc_cmd_add(rt, bg, RJS_BC_push_try, line);
+    cmd = bc_cmd_get(bg, cid);
+    cmd->push_try.catch_label = lc;
+    cmd->push_try.final_label = lf;
+
     bg->tco = RJS_FALSE;
 
     ast = bc_ast_get(rt, &ts->try_block);
@@ -3579,7 +3579,8 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 
     ast = bc_ast_get(rt, &ts->catch_block);
     if (ast) {
-        int rid;
+        int      rid;
+        RJS_Bool env_pushed = RJS_FALSE;
 
         rid  = bc_reg_add(rt, bg);
         line = ast->location.first_line;
@@ -3609,6 +3610,7 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
                 }
 
                 rjs_code_gen_push_decl(rt, ts->catch_decl);
+                env_pushed = RJS_TRUE;
 
                 bc_gen_binding_assi_ref(rt, bg, binding, &ref);
                 bc_gen_binding_assi(rt, bg, binding, rid, RJS_TRUE, &ref);
@@ -3617,7 +3619,7 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 
         bc_gen_block(rt, bg, (RJS_AstBlock*)ast);
 
-        if (ts->catch_decl) {
+        if (env_pushed) {
             rjs_code_gen_pop_decl(rt);
 
             cid = bc_cmd_add(rt, bg, RJS_BC_pop_state, line);
@@ -3631,10 +3633,6 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
     cmd = bc_cmd_get(bg, cid);
     cmd->stub.label = lf;
 
-    cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
-    cmd = bc_cmd_get(bg, cid);
-    cmd->stub.label = lb;
-
     ast = bc_ast_get(rt, &ts->final_block);
     if (ast) {
         /*
@@ -3670,6 +3668,10 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 
     cid = bc_cmd_add(rt, bg, RJS_BC_pop_state, line);
 
+    cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+    cmd = bc_cmd_get(bg, cid);
+    cmd->stub.label = lb;
+
     return RJS_OK;
 }
 
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 53b76d5..06eff66 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6903,10 +6903,9 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
     stmt->catch_decl = NULL;
 
     break_push(rt, &stmt->break_js, &stmt->ast);
-    r = parse_block(rt, &stmt->try_block);
-    break_pop(rt);
-    if (r == RJS_ERR)
-        goto end;
+
+    if ((r = parse_block(rt, &stmt->try_block)) == RJS_ERR)
+        goto end_break;
 
     /*Catch block.*/
     tok = get_token(rt);
@@ -6914,10 +6913,10 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
         tok = get_token(rt);
         if (tok->type == RJS_TOKEN_lparenthese) {
             if ((r = parse_binding(rt, &stmt->catch_binding)) == RJS_ERR)
-                goto end;
+                goto end_break;
 
             if ((r = get_token_expect(rt, RJS_TOKEN_rparenthese)) == RJS_ERR)
-                goto end;
+                goto end_break;
 
             stmt->catch_decl = decl_push(rt);
 
@@ -6928,10 +6927,11 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
         r = parse_block(rt, &stmt->catch_block);
 
-        decl_pop(rt);
+        if (stmt->catch_decl)
+            decl_pop(rt);
 
         if (r == RJS_ERR)
-            goto end;
+            goto end_break;
 
         /*Check if the catch parameter is redefined in block.*/
         if (stmt->catch_decl) {
@@ -6964,13 +6964,14 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
         tok = get_token(rt);
     } else if (!token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_finally)) {
         parse_unexpect_error(rt, &tok->location, _("`catch\' or `finally\'"));
-        goto end;
+        r = RJS_ERR;
+        goto end_break;
     }
 
     /*Finally block.*/
     if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_finally)) {
         if ((r = parse_block(rt, &stmt->final_block)) == RJS_ERR)
-            goto end;
+            goto end_break;
 
         loc_update_last_ast(rt, &stmt->ast.location, &stmt->final_block);
     } else {
@@ -6978,6 +6979,8 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
     }
 
     r = RJS_OK;
+end_break:
+    break_pop(rt);
 end:
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From 685802e5f1059fb6720928b9d4d4c7711e712448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 013/127] fix: tail calls balance the generator's state stack
 depth

---
 src/lib/rjs_bc_gen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 9a3fe9f..c7adf7a 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -161,11 +161,13 @@ bc_cmd_add_stack_check (RJS_Runtime *rt, RJS_BcGen *bg, RJS_BcType type, int lin
             break;
         case RJS_BC_pop_state:
         case RJS_BC_call:
+        case RJS_BC_tail_call:
         case RJS_BC_super_call:
         case RJS_BC_new:
         case RJS_BC_save_lex_env:
 #if ENABLE_EVAL
         case RJS_BC_eval:
+        case RJS_BC_tail_eval:
 #endif /*ENABLE_EVAL*/
             bg->stack_depth --;
             break;
-- 
2.43.0


From edd7fc5e938ebbcc6c14e06c243edf097b499dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 014/127] fix: the object of a for-in loop is kept alive while
 its iterator is created

---
 src/lib/rjs_for_in_iterator.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index 7994454..5eebffb 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -119,6 +119,8 @@ rjs_for_in_iterator_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *v)
     RJS_Realm         *realm = rjs_realm_current(rt);
     RJS_ForInIterator *fii;
     RJS_Result         r;
+    size_t             top = rjs_value_stack_save(rt);
+    RJS_Value         *o   = rjs_value_stack_push(rt);
 
     RJS_NEW(rt, fii);
 
@@ -128,7 +130,9 @@ rjs_for_in_iterator_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *v)
     } else {
         fii->visited = RJS_FALSE;
 
-        rjs_to_object(rt, v, &fii->v);
+        /*Keep the object reachable until the iterator is added to the collector.*/
+        rjs_to_object(rt, v, o);
+        rjs_value_copy(rt, &fii->v, o);
     }
 
     rjs_value_set_undefined(rt, &fii->keys);
@@ -136,6 +140,7 @@ rjs_for_in_iterator_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *v)
 
     r = rjs_object_init(rt, iterv, &fii->object, rjs_o_ForInIteratorPrototype(realm), &for_in_iterator_ops);
 
+    rjs_value_stack_restore(rt, top);
     return r;
 }
 
-- 
2.43.0


From 4aca3a7a53f398e97839a1430124b3072837b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 015/127] fix: for-in skips symbol keys wherever a proxy lists
 them

---
 src/lib/rjs_for_in_iterator.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index 5eebffb..c1fa7cc 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -204,8 +204,6 @@ for_in_iterator_proto_next (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_
                             }
                         }
                     }
-                } else {
-                    break;
                 }
 
                 fii->id ++;
-- 
2.43.0


From 447f8cc335175026397505b91f6a0186c71cc8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 016/127] fix: a return statement may end at a closing brace

---
 src/lib/rjs_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 06eff66..27b2e66 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7173,7 +7173,10 @@ parse_return_stmt (RJS_Runtime *rt, RJS_Value *vs)
     }
 
     tok = get_token(rt);
-    if ((tok->location.first_line == parser->last_line) && (tok->type != RJS_TOKEN_semicolon)) {
+    if ((tok->location.first_line == parser->last_line)
+            && (tok->type != RJS_TOKEN_semicolon)
+            && (tok->type != RJS_TOKEN_rbrace)
+            && (tok->type != RJS_TOKEN_END)) {
         RJS_Ast *ast;
 
         unget_token(rt);
-- 
2.43.0


From e37a1bcca53aa3364a80d2ef2f68b65f1b8c7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 017/127] fix: Object.getOwnPropertyDescriptor succeeds for a
 missing property

---
 src/lib/rjs_object_object_inc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index 123a227..8022683 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -395,10 +395,12 @@ static RJS_NF(Object_getOwnPropertyDescriptor)
     if (r == RJS_ERR)
         goto end;
 
-    if (!r)
+    if (!r) {
         rjs_value_set_undefined(rt, rv);
-    else
+        r = RJS_OK;
+    } else {
         r = rjs_from_property_descriptor(rt, &pd, rv);
+    }
 end:
     rjs_property_desc_deinit(rt, &pd);
     rjs_value_stack_restore(rt, top);
-- 
2.43.0


From 633e419854c9cccb55896ee98dc82566a683a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 018/127] fix: an overridden return in a finally block keeps
 the pending return value

---
 src/lib/rjs_bc_call.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index e058364..8fa18bb 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1139,6 +1139,7 @@ end:
                 r = RJS_ERR;\
                 goto error;\
             case RJS_TRY_NEXT_OP_RETURN:\
+                rjs_value_copy(rt, &sc->retv, s->s.s_try.error);\
                 rjs_state_pop(rt);\
                 r = RJS_RETURN;\
                 goto ret;\
@@ -1353,11 +1354,15 @@ error:
             case RJS_TRY_STATE_TRY:
                 if (r == RJS_ERR)
                     rjs_value_copy(rt, s->s.s_try.error, &rt->error);
+                else if (r == RJS_RETURN)
+                    rjs_value_copy(rt, s->s.s_try.error, &sc->retv);
                 sc->ip = (r == RJS_ERR) ? s->s.s_try.catch_ip : s->s.s_try.finally_ip;
                 goto restart;
             case RJS_TRY_STATE_CATCH:
                 if (r == RJS_ERR)
                     rjs_value_copy(rt, s->s.s_try.error, &rt->error);
+                else if (r == RJS_RETURN)
+                    rjs_value_copy(rt, s->s.s_try.error, &sc->retv);
                 sc->ip = s->s.s_try.finally_ip;
                 goto restart;
             case RJS_TRY_STATE_FINALLY:
-- 
2.43.0


From 0ceaa3ac04cda032ec7888a0bd3648af8e37ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 019/127] fix: the body block of a for statement may declare
 the loop's names lexically

---
 src/lib/rjs_parser.c | 27 ---------------------------
 1 file changed, 27 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 27b2e66..c0e7fc7 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6606,33 +6606,6 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     if (r == RJS_ERR)
         goto end;
 
-    /*Check if the bound names is redefined in statement.*/
-    if (is_decl && (dtype != RJS_AST_DECL_VAR)) {
-        RJS_Ast *ast = ast_get(rt, &stmt->loop_stmt);
-
-        if (ast && (ast->type == RJS_AST_Block)) {
-            RJS_AstBlock    *blk = (RJS_AstBlock*)ast;
-            RJS_AstDeclItem *di;
-
-            rjs_list_foreach_c(&stmt->decl->item_list, di, RJS_AstDeclItem, ast.ln) {
-                if (di->type != RJS_AST_DECL_VAR) {
-                    RJS_HashEntry *he;
-
-                    rjs_value_set_string(rt, tmp, di->he.key);
-
-                    he = hash_lookup(rt, &blk->decl->item_hash, tmp, NULL);
-                    if (he) {
-                        RJS_AstDeclItem *ndi = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
-
-                        parse_error(rt, &ndi->ast.location, _("\"%s\" is already defined"),
-                                rjs_string_to_enc_chars(rt, tmp, NULL, NULL));
-                        parse_prev_define_note(rt, &di->ast.location);
-                    }
-                }
-            }
-        }
-    }
-
     loc_update_last_ast(rt, &stmt->ast.location, &stmt->loop_stmt);
 
     r = RJS_OK;
-- 
2.43.0


From a6661f14b26fde040ba5564639123689ab89b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 020/127] fix: assigning to a constant throws in sloppy code
 too

---
 src/lib/rjs_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index c0e7fc7..bacf7d2 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7402,7 +7402,7 @@ parse_lexical_decl (RJS_Runtime *rt, RJS_Value *vs)
         dtype = RJS_AST_DECL_LET;
     } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_const)) {
         type  = RJS_AST_ConstDecl;
-        dtype = RJS_AST_DECL_CONST;
+        dtype = RJS_AST_DECL_STRICT;
     } else {
         parse_unexpect_error(rt, &tok->location, _("`let\' or `const\'"));
         goto end;
@@ -8289,7 +8289,7 @@ parse_class_decl (RJS_Runtime *rt, RJS_Bool is_expr, RJS_Value *vc)
 
         id_loc = tok->location;
 
-        decl_item_add(rt, RJS_AST_DECL_CONST, &id_loc, tok->value, NULL);
+        decl_item_add(rt, RJS_AST_DECL_STRICT, &id_loc, tok->value, NULL);
     }
 
     tok = get_token(rt);
@@ -9170,7 +9170,7 @@ parse_export_decl (RJS_Runtime *rt, RJS_Value *vs)
                     RJS_Ast         *expr;
 
                     /*Add "*default*" binding.*/
-                    decl_item_add(rt, RJS_AST_DECL_CONST, &tok->location, rjs_s_star_default_star(rt), NULL);
+                    decl_item_add(rt, RJS_AST_DECL_STRICT, &tok->location, rjs_s_star_default_star(rt), NULL);
 
                     /*Add default expression statement.*/
                     stmt = ast_new(rt, vs, RJS_AST_DefaultExprStmt, &tok->location);
-- 
2.43.0


From 4b5061ac437cebf18f2314ccd7d8b1c2ef7147ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 021/127] fix: script completion value is undefined when no
 statement yields one

---
 src/lib/rjs_bc_gen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index c7adf7a..2991115 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -4454,6 +4454,10 @@ rjs_bc_gen_func (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstFunc *func)
     if (func->flags & RJS_AST_FUNC_FL_SCRIPT) {
         bg->rv_reg = bc_reg_add(rt, bg);
 
+        cid = bc_cmd_add(rt, bg, RJS_BC_load_undefined, 1);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->load.dest = bg->rv_reg;
+
         if (!rjs_list_is_empty(&func->stmt_list)) {
             cid = bc_cmd_add(rt, bg, RJS_BC_script_init, 1);
             cmd = bc_cmd_get(bg, cid);
-- 
2.43.0


From 3b51c442ad321b2f32a154edb26ca7a8bb467f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 022/127] fix: a with object does not conflict with the var
 declarations of an eval

---
 src/lib/rjs_eval_opt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/rjs_eval_opt.c b/src/lib/rjs_eval_opt.c
index fc9ca68..c40ecf0 100644
--- a/src/lib/rjs_eval_opt.c
+++ b/src/lib/rjs_eval_opt.c
@@ -79,6 +79,12 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
 
         curr_env = lex_env;
         while (curr_env != var_env) {
+            /*The bindings of the object environment are not declarations.*/
+            if (curr_env->gc_thing.ops->type == RJS_GC_THING_OBJECT_ENV) {
+                curr_env = curr_env->outer;
+                continue;
+            }
+
             for (id = var_grp->binding_start;
                     id < var_grp->binding_start + var_grp->binding_num;
                     id ++) {
-- 
2.43.0


From 0791a000732c524d66250da670ef18adc7105fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 023/127] fix: a var declaration in a block may redeclare a top
 level function

---
 src/lib/rjs_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index bacf7d2..b9b9bcc 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -631,7 +631,10 @@ decl_item_add (RJS_Runtime *rt, RJS_AstDeclType type, RJS_Location *loc,
                     var_di = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
 
                     if ((var_di->type != RJS_AST_DECL_VAR)
-                            && (var_di->type != RJS_AST_DECL_PARAMETER)) {
+                            && (var_di->type != RJS_AST_DECL_PARAMETER)
+                            && ((var_di->type != RJS_AST_DECL_FUNCTION)
+                                || ((decl != func->lex_decl) && (decl != func->var_decl))
+                                || (func->flags & RJS_AST_FUNC_FL_MODULE))) {
                         parse_error(rt, loc, _("\"%s\" is already defined"),
                                 rjs_string_to_enc_chars(rt, id, NULL, NULL));
                     } else {
-- 
2.43.0


From 94241349b651754e623845cb7f6dbe5cad6f0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 024/127] fix: typeof resolves its binding only once

---
 src/lib/rjs_bc_gen.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 2991115..f318628 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -842,19 +842,24 @@ bc_gen_typeof_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstUnaryExpr *expr, int
     RJS_BcCommand *cmd;
     RJS_Ast       *ast;
 
-    t_rid = bc_reg_add(rt, bg);
-    ast   = bc_ast_get(rt, &expr->operand);
+    ast  = bc_ast_get(rt, &expr->operand);
+    line = ast->location.first_line;
 
-    bc_gen_ref(rt, bg, ast, t_rid, &ref);
+    while (ast->type == RJS_AST_ParenthesesExpr)
+        ast = bc_ast_get(rt, &((RJS_AstUnaryExpr*)ast)->operand);
 
-    line = ast->location.first_line;
+    if (ast->type == RJS_AST_Id) {
+        RJS_AstId *ir = (RJS_AstId*)ast;
 
-    if (ref.type == RJS_BC_REF_BINDING) {
+        /*"typeof_binding" resolves the binding itself.*/
         cid = bc_cmd_add(rt, bg, RJS_BC_typeof_binding, line);
         cmd = bc_cmd_get(bg, cid);
-        cmd->typeof_binding.binding = ref.binding_ref;
+        cmd->typeof_binding.binding = rjs_code_gen_binding_ref(rt, &ast->location, &ir->identifier->value);
         cmd->typeof_binding.dest    = rid;
     } else {
+        t_rid = bc_reg_add(rt, bg);
+
+        bc_gen_ref(rt, bg, ast, t_rid, &ref);
         bc_ref_get_value(rt, bg, line, t_rid, &ref);
 
         cid = bc_cmd_add(rt, bg, RJS_BC_typeof, line);
-- 
2.43.0


From 5654e700736c3654330e7267f7cb6268ec8fb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 025/127] fix: the catch block drops the completion value of
 its try block

---
 src/lib/rjs_bc_gen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index f318628..dacc995 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3596,6 +3596,13 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
         cmd = bc_cmd_get(bg, cid);
         cmd->load.dest = rid;
 
+        /*Drop the completion value of the try block.*/
+        if (bg->rv_reg != -1) {
+            cid = bc_cmd_add(rt, bg, RJS_BC_load_undefined, line);
+            cmd = bc_cmd_get(bg, cid);
+            cmd->load.dest = bg->rv_reg;
+        }
+
         if (ts->catch_decl) {
             RJS_Ast *binding;
 
-- 
2.43.0


From 9f4880fc46c84978629538fd67dc4b1fd722e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 026/127] fix: binding caches are not used for environments
 changed by eval or delete

---
 src/lib/rjs_decl_env.c    | 15 ++++++++++-----
 src/lib/rjs_environment.c |  6 +++++-
 src/lib/rjs_operation.c   | 16 ++++++++++++----
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/lib/rjs_decl_env.c b/src/lib/rjs_decl_env.c
index 048e29a..fa26cfe 100644
--- a/src/lib/rjs_decl_env.c
+++ b/src/lib/rjs_decl_env.c
@@ -449,15 +449,20 @@ rjs_decl_env_lookup_binding (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingN
     RJS_HashEntry *he;
     RJS_Result     r;
 
+    str = binding_name_get_string(rt, bn);
+
 #if ENABLE_BINDING_CACHE
-    if (env->cache_enable && !pe && (bn->binding_idx != 0xffff)) {
-        *b = de->binding_vec.items[bn->binding_idx];
-        return RJS_TRUE;
+    /*The cached index may belong to another environment, so check the name.*/
+    if (env->cache_enable && !pe && (bn->binding_idx < de->binding_vec.item_num)) {
+        RJS_Binding *cb = de->binding_vec.items[bn->binding_idx];
+
+        if (cb->he.key == str) {
+            *b = cb;
+            return RJS_TRUE;
+        }
     }
 #endif /*ENABLE_BINDING_CACHE*/
 
-    str = binding_name_get_string(rt, bn);
-
     r = rjs_hash_lookup(&de->binding_hash, str, &he, pe, &rjs_hash_size_ops, rt);
     if (r) {
         *b = RJS_CONTAINER_OF(he, RJS_Binding, he);
diff --git a/src/lib/rjs_environment.c b/src/lib/rjs_environment.c
index d46ecba..3bc82be 100644
--- a/src/lib/rjs_environment.c
+++ b/src/lib/rjs_environment.c
@@ -41,7 +41,7 @@ rjs_env_init (RJS_Runtime *rt, RJS_Environment *env, RJS_ScriptDecl *decl, RJS_E
 #if ENABLE_BINDING_CACHE
     env->outer_stack  = NULL;
     env->depth        = outer ? outer->depth + 1 : 0;
-    env->cache_enable = RJS_TRUE;
+    env->cache_enable = outer ? outer->cache_enable : RJS_TRUE;
 
     rjs_list_init(&env->back_refs);
 #endif /*ENABLE_BINDING_CACHE*/
@@ -107,6 +107,10 @@ rjs_env_build_outer_stack (RJS_Runtime *rt, RJS_Environment *env)
             e->back_ref.env = env;
             e->env = outer;
 
+            /*The outer environment's bindings are changed already.*/
+            if (!outer->cache_enable)
+                env->cache_enable = RJS_FALSE;
+
             e ++;
             outer = outer->outer;
         } while (e < le);
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 3988ba9..e7a813d 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2069,19 +2069,27 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
     RJS_Result       r;
 
 #if ENABLE_BINDING_CACHE
+    /*Build the outer environment stack, it checks if the cache can be used.*/
+    if (bn->env_idx && (bn->env_idx != 0xffff) && env->cache_enable && !env->outer_stack)
+        rjs_env_build_outer_stack(rt, env);
+
     if ((bn->env_idx != 0xffff) && env->cache_enable) {
         /*The outer environment is already in cache.*/
         if (bn->env_idx) {
             RJS_EnvStackEntry *ent;
 
-            /*Build the outer environment stack.*/
-            if (!env->outer_stack)
-                rjs_env_build_outer_stack(rt, env);
-
             /*Get the outer environment from the stack directly.*/
             ent = &env->outer_stack[bn->env_idx - 1];
             env = ent->env;
         }
+
+        /*The property of the global object may be deleted.*/
+        if (env->gc_thing.ops->type == RJS_GC_THING_GLOBAL_ENV) {
+            if ((r = rjs_env_has_binding(rt, env, bn)) == RJS_ERR)
+                return r;
+            if (!r)
+                env = NULL;
+        }
     } else
 #endif /*ENABLE_BINDING_CACHE*/
     {
-- 
2.43.0


From 1b9f5855a52c6bacdd1e4ecb255fa6544a55c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 027/127] fix: strtod does not overflow its exponent
 accumulator

---
 src/lib/rjs_dtoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_dtoa.c b/src/lib/rjs_dtoa.c
index f12c0e7..12a1742 100644
--- a/src/lib/rjs_dtoa.c
+++ b/src/lib/rjs_dtoa.c
@@ -3658,7 +3658,8 @@ rjs_strtod(const char *s00, char **se)
 				L = c - '0';
 				s1 = s;
 				while((c = *++s) >= '0' && c <= '9')
-					L = 10*L + c - '0';
+					if (L <= 19999)
+						L = 10*L + c - '0';
 				if (s - s1 > 8 || L > 19999)
 					/* Avoid confusion from exponents
 					 * so large that e might overflow.
-- 
2.43.0


From 5e70cb90920a569a4424446fd570b5d5a89a077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 028/127] fix: a legacy octal literal has no fraction or
 exponent

---
 src/lib/rjs_lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 9f7ca6c..e08612a 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -555,7 +555,7 @@ lex_number (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
             break;
         case 8:
             if (!rjs_uchar_is_octal(c)) {
-                if (legacy_oct && (rjs_uchar_is_digit(c) || (c == '.') || (c == 'e') || (c == 'E'))) {
+                if (legacy_oct && rjs_uchar_is_digit(c)) {
                     base = 10;
                 } else if (!dn) {
                     rjs_input_get_location(lex->input, &loc);
-- 
2.43.0


From ee3700595f9bcba33de2e21a6a8a53328b7a5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 029/127] fix: toFixed, toExponential and toPrecision round
 ties up, toFixed drops the sign of -0

---
 src/lib/rjs_dtoa.c              | 16 ++++++++--------
 src/lib/rjs_number_object_inc.c |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_dtoa.c b/src/lib/rjs_dtoa.c
index 12a1742..09af16b 100644
--- a/src/lib/rjs_dtoa.c
+++ b/src/lib/rjs_dtoa.c
@@ -5376,7 +5376,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		j += k;
 		if (ilim == 0) {
 			S = mhi = 0;
-			if (res > (5ull << j))
+			if (res >= (5ull << j))
 				goto one_digit;
 			goto no_digits;
 			}
@@ -5384,7 +5384,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		}
 	if (ilim == 0 && j + k >= 0) {
 		S = mhi = 0;
-		if ((dbits >> 11) > (pfive[k-1] << j))
+		if ((dbits >> 11) >= (pfive[k-1] << j))
 			goto one_digit;
 		goto no_digits;
 		}
@@ -5423,7 +5423,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 				  }
 				ures = 2*res;
 				if (ures > den
-				|| (ures == den && dig & 1)
+				|| (ures == den && (mode > 1 || dig & 1))
 				|| (spec_case && res <= ulp && 2*res >= ulp))
 					goto Roundup;
 				goto retc;
@@ -5471,7 +5471,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 				  }
 #endif
 				hb = 1ull << j;
-				if (res & hb && (dig & 1 || res & (hb-1)))
+				if (res & hb && (mode > 1 || dig & 1 || res & (hb-1)))
 					goto Roundup;
 				if (spec_case && res <= ulp && 2*res >= ulp) {
  Roundup:
@@ -5914,7 +5914,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		ds = tens[k];
 		if (ndigits < 0 && ilim <= 0) {
 			S = mhi = 0;
-			if (ilim < 0 || dval(&u) <= 5*ds)
+			if (ilim < 0 || dval(&u) < 5*ds)
 				goto no_digits;
 			goto one_digit;
 			}
@@ -5947,7 +5947,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 #ifdef ROUND_BIASED
 				if (dval(&u) >= ds)
 #else
-				if (dval(&u) > ds || (dval(&u) == ds && L & 1))
+				if (dval(&u) > ds || (dval(&u) == ds && (mode > 1 || L & 1)))
 #endif
 					{
  bump_up:
@@ -6039,7 +6039,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		}
 #endif
 	if (ilim <= 0 && (mode == 3 || mode == 5)) {
-		if (ilim < 0 || cmp(b,S = multadd(S,5,0 MTb)) <= 0) {
+		if (ilim < 0 || cmp(b,S = multadd(S,5,0 MTb)) < 0) {
 			/* no digits, fcvt style */
  no_digits:
 			k = -1 - ndigits;
@@ -6182,7 +6182,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 #ifdef ROUND_BIASED
 	if (j >= 0)
 #else
-	if (j > 0 || (j == 0 && dig & 1))
+	if (j > 0 || (j == 0 && (mode > 1 || dig & 1)))
 #endif
 		{
  roundoff:
diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 0d89128..45853b8 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -390,7 +390,7 @@ static RJS_NF(Number_prototype_toFixed)
     kv = se - sb;
     nv = decpt;
 
-    if (sign)
+    if (sign && (n != 0))
         *dc ++ = '-';
 
     if (kv <= nv) {
-- 
2.43.0


From 8c856dd1d186018a320edf3a4e4b54cd613d5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 030/127] fix: the fraction and exponent of a legacy decimal
 number may have separators

---
 src/lib/rjs_lex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index e08612a..a0ce283 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -609,6 +609,9 @@ lex_number (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
 
 int_end:
 
+    /*Only the integer part of a legacy decimal number cannot have separators.*/
+    no_sep = RJS_FALSE;
+
     if ((base == 10) && !(lex->flags & RJS_LEX_FL_BIG_INT)) {
         if (c == '.') {
             dn       = 0;
@@ -698,7 +701,7 @@ int_end:
 
     lex_unget_uc(rt, lex, c);
 
-    if (no_sep) {
+    if (legacy_oct) {
         RJS_Parser *parser = rt->parser;
 
         if (parser && (parser->flags & RJS_PARSE_FL_STRICT)) {
-- 
2.43.0


From 29af62518e6f1370e4916f81e1a39cc0eaf04c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 031/127] fix: BigInt products get their sign from both
 operands

---
 src/lib/rjs_big_int_internal_opt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index d40a6fc..9438415 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -318,7 +318,12 @@ bi_mul_int (RJS_Runtime *rt, RJS_BI *src, uint32_t n, RJS_BI *dst, int shift)
         bi_set_0(dst);
         return RJS_OK;
     } else if ((n == 1) && (shift == 0)) {
-        return bi_dup(rt, dst, src);
+        if ((r = bi_dup(rt, dst, src)) == RJS_ERR)
+            return r;
+
+        /*The result is the absolute value.*/
+        dst->size = size;
+        return RJS_OK;
     }
 
     bi_set_0(dst);
-- 
2.43.0


From 88b11d3ca5901866a57232019a26fa700267df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 032/127] fix: BigInt subtraction and division stop borrowing
 after a digit that needs no borrow

---
 src/lib/rjs_big_int_internal_opt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 9438415..db237aa 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1173,7 +1173,8 @@ bi_self_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, src1, i, v)) == RJS_ERR)
@@ -1225,7 +1226,8 @@ bi_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, dst, i, v)) == RJS_ERR)
-- 
2.43.0


From 5e819fba83d51983bbcac4ce2a53cafc2f96faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 033/127] fix: shifts of negative BigInts

---
 src/lib/rjs_big_int_internal_opt.c | 96 +++++++++++++-----------------
 1 file changed, 41 insertions(+), 55 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index db237aa..38e403d 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1834,18 +1834,11 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
     int         pos1  = bi_positive(src1);
     int         pos2  = bi_positive(src2);
     int         size, i, j, off, bits;
-    RJS_BI      inp, res;
-    RJS_BI     *s, *d;
     uint32_t    y;
     RJS_Result  r;
 
-    bi_init(&inp);
-    bi_init(&res);
-
-    if (pos2 == 0) {
-        r = bi_dup(rt, dst, src1);
-        goto end;
-    }
+    if ((pos1 == 0) || (pos2 == 0))
+        return bi_dup(rt, dst, src1);
 
     if (rev)
         pos2 = - pos2;
@@ -1854,97 +1847,90 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
         if (pos2 < 0) {
             if (pos1 < 0) {
                 if ((r = bi_set_item(rt, dst, 0, 1)) == RJS_ERR)
-                    goto end;
+                    return r;
 
                 dst->size = - dst->size;
             }
-            r = RJS_OK;
-            goto end;
+
+            return RJS_OK;
         } else {
-            r = rjs_throw_range_error(rt, _("shift value is too big"));
-            goto end;
+            return rjs_throw_range_error(rt, _("shift value is too big"));
         }
     }
 
-    if (pos1 < 0) {
-        if ((r = bi_complement(rt, src1, &inp)) == RJS_ERR)
-            goto end;
-
-        s = &inp;
-        d = &res;
-    } else {
-        s = src1;
-        d = dst;
-    }
-
     y    = src2->n[0];
     off  = y / 32;
     bits = y % 32;
 
+    /*Shift the absolute value.*/
     if (pos2 < 0) {
+        RJS_Bool lost = RJS_FALSE;
+
         size = size1 - off;
 
+        for (i = 0; (i < off) && (i < size1); i ++) {
+            if (src1->n[i])
+                lost = RJS_TRUE;
+        }
+
+        if ((size > 0) && (src1->n[off] & ~(0xffffffffu << bits)))
+            lost = RJS_TRUE;
+
         for (i = 0; i < size; i ++) {
             uint64_t v;
 
             j = i + off;
-            v = s->n[j];
+            v = src1->n[j];
 
-            if (j + 1 < size1) {
-                v |= ((uint64_t)s->n[j + 1]) << 32;
-            } else if (pos1 < 0) {
-                v |= 0xffffffff00000000ull;
-            }
+            if (j + 1 < size1)
+                v |= ((uint64_t)src1->n[j + 1]) << 32;
 
             v >>= bits;
 
-            if ((r = bi_set_item(rt, d, i, v & 0xffffffff)) == RJS_ERR)
-                goto end;
+            if ((r = bi_set_item(rt, dst, i, v & 0xffffffff)) == RJS_ERR)
+                return r;
+        }
+
+        bi_end(dst);
+
+        /*The quotient is rounded to negative infinity.*/
+        if ((pos1 < 0) && lost) {
+            if ((r = bi_self_add_int(rt, dst, 1)) == RJS_ERR)
+                return r;
         }
     } else {
         uint32_t left = 0;
 
         for (i = 0; i < off; i ++) {
-            if ((r = bi_set_item(rt, d, i, 0)) == RJS_ERR)
-                goto end;
+            if ((r = bi_set_item(rt, dst, i, 0)) == RJS_ERR)
+                return r;
         }
 
         for (j = 0; j < size1; j ++, i ++) {
             uint64_t v;
 
-            v = s->n[j];
+            v = src1->n[j];
             v <<= bits;
             v |= left;
 
-            if ((r = bi_set_item(rt, d, i, v & 0xffffffff)) == RJS_ERR)
-                goto end;
+            if ((r = bi_set_item(rt, dst, i, v & 0xffffffff)) == RJS_ERR)
+                return r;
 
             left = v >> 32;
         }
 
         if (left) {
-            if (pos1 < 0)
-                left |= 0xffffffff << bits;
-
-            if ((r = bi_set_item(rt, d, i, left)) == RJS_ERR)
-                goto end;
+            if ((r = bi_set_item(rt, dst, i, left)) == RJS_ERR)
+                return r;
         }
-    }
 
-    bi_end(d);
-
-    if (pos1 < 0) {
-        if ((r = bi_complement(rt, d, dst)) == RJS_ERR)
-            goto end;
+        bi_end(dst);
+    }
 
+    if (pos1 < 0)
         dst->size = - dst->size;
-    }
 
-    r = RJS_OK;
-end:
-    bi_deinit(rt, &inp);
-    bi_deinit(rt, &res);
-    return r;
+    return RJS_OK;
 }
 
 /**
-- 
2.43.0


From 4b8d30472115fa9db5a1430c7b0c0e3f95b2a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 034/127] fix: BigInt.asIntN and asUintN wrap modulo 2^bits

---
 src/lib/rjs_big_int_internal_opt.c | 139 ++++++++++++++++-------------
 1 file changed, 75 insertions(+), 64 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 38e403d..476f0c8 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -25,6 +25,9 @@
 
 #include "ratjs_internal.h"
 
+/*Maximum bits number of a big integer created from its low bits.*/
+#define BI_MAX_BITS (1 << 30)
+
 /*Get the big integer data from the value.*/
 static RJS_BI*
 bi_get (RJS_Runtime *rt, RJS_Value *v)
@@ -2217,61 +2220,58 @@ rjs_big_int_compare_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number n)
     return r;
 }
 
-/*Get the bits from another big integer.*/
+/*Get the absolute value of a big integer modulo 2^bits.*/
 static RJS_Result
-bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
+bi_mod_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
 {
-    RJS_BI     tmp;
-    RJS_BI    *inp;
-    int        size;
-    int64_t    off, b, i;
-    uint32_t   n;
+    int        size = bi_size(src);
+    int64_t    off  = bits / 32;
+    int64_t    b    = bits % 32;
+    int64_t    i;
     RJS_Result r;
 
-    bi_init(&tmp);
-
-    if (bi_positive(src) < 0) {
-        inp = &tmp;
+    for (i = 0; (i < off) && (i < size); i ++) {
+        if ((r = bi_set_item(rt, dst, i, src->n[i])) == RJS_ERR)
+            return r;
+    }
 
-        if ((r = bi_complement(rt, src, inp)) == RJS_ERR)
-            goto end;
-    } else {
-        inp = src;
+    if (b && (off < size)) {
+        if ((r = bi_set_item(rt, dst, off, src->n[off] & ~(0xffffffffu << b))) == RJS_ERR)
+            return r;
     }
 
-    size = bi_size(inp);
+    bi_end(dst);
+    return RJS_OK;
+}
 
-    off = bits / 32;
-    b   = bits % 32;
+/*Set the big integer to (2^bits - bi). 0 < bi < 2^bits*/
+static RJS_Result
+bi_sub_from_bits (RJS_Runtime *rt, RJS_BI *bi, int64_t bits)
+{
+    int64_t    size = (bits + 31) / 32;
+    int64_t    b    = bits % 32;
+    int64_t    i;
+    RJS_Result r;
 
-    for (i = 0; i < off; i ++) {
-        if (i < size)
-            n = inp->n[i];
-        else
-            n = 0;
+    if (bits > BI_MAX_BITS)
+        return rjs_throw_range_error(rt, _("the big integer is too big"));
 
-        if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
-            goto end;
+    for (i = bi_size(bi); i < size; i ++) {
+        if ((r = bi_set_item(rt, bi, i, 0)) == RJS_ERR)
+            return r;
     }
 
-    if (b) {
-        if (i < size)
-            n = inp->n[i];
-        else
-            n = 0;
+    for (i = 0; i < size; i ++)
+        bi->n[i] = ~bi->n[i];
 
-        n &= ~(0xffffffff << b);
+    if (b)
+        bi->n[size - 1] &= ~(0xffffffffu << b);
 
-        if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
-            goto end;
-    }
-
-    bi_end(dst);
+    if ((r = bi_self_add_int(rt, bi, 1)) == RJS_ERR)
+        return r;
 
-    r = RJS_OK;
-end:
-    bi_deinit(rt, &tmp);
-    return r;
+    bi_end(bi);
+    return RJS_OK;
 }
 
 /**
@@ -2286,42 +2286,46 @@ end:
 RJS_Result
 rjs_big_int_as_int_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv)
 {
-    RJS_BI    *src  = bi_get(rt, v);
-    RJS_BI    *dst  = big_int_new(rt, rv);
-    int        pos  = 1;
-    int        size;
+    RJS_BI    *src = bi_get(rt, v);
+    RJS_BI    *dst = big_int_new(rt, rv);
+    int        pos = bi_positive(src);
     int64_t    off, b;
-    uint32_t   n;
     RJS_BI     res;
     RJS_Result r;
 
     bi_init(&res);
 
-    if ((r = bi_bits(rt, src, &res, bits)) == RJS_ERR)
+    if ((r = bi_mod_bits(rt, src, &res, bits)) == RJS_ERR)
         goto end;
 
-    off  = (bits - 1) / 32;
-    b    = (bits - 1) % 32;
-    size = bi_size(&res);
+    off = (bits - 1) / 32;
+    b   = (bits - 1) % 32;
+
+    /*Fold the absolute value to the range [-2^(bits-1), 2^(bits-1) - 1].*/
+    if (bits && (bi_size(&res) > off) && (res.n[off] & (1u << b))) {
+        RJS_Bool min = (res.n[off] == (1u << b));
+        int64_t  i;
 
-    if (size > off) {
-        n = res.n[off];
-        if (n & (1 << b)) {
-            n |= (0xffffffff << b);
-            bi_set_item(rt, &res, off, n);
+        for (i = 0; min && (i < off); i ++) {
+            if (res.n[i])
+                min = RJS_FALSE;
+        }
+
+        if (min) {
             pos = -1;
+        } else {
+            if ((r = bi_sub_from_bits(rt, &res, bits)) == RJS_ERR)
+                goto end;
+
+            pos = - pos;
         }
     }
 
-    if (pos < 0) {
-        if ((r = bi_complement(rt, &res, dst)) == RJS_ERR)
-            goto end;
+    if ((r = bi_dup(rt, dst, &res)) == RJS_ERR)
+        goto end;
 
+    if (pos < 0)
         dst->size = - dst->size;
-    } else {
-        if ((r = bi_dup(rt, dst, &res)) == RJS_ERR)
-            goto end;
-    }
 
     r = RJS_OK;
 end:
@@ -2341,8 +2345,15 @@ end:
 RJS_Result
 rjs_big_int_as_uint_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv)
 {
-    RJS_BI *src = bi_get(rt, v);
-    RJS_BI *dst = big_int_new(rt, rv);
+    RJS_BI    *src = bi_get(rt, v);
+    RJS_BI    *dst = big_int_new(rt, rv);
+    RJS_Result r;
+
+    if ((r = bi_mod_bits(rt, src, dst, bits)) == RJS_ERR)
+        return r;
+
+    if ((bi_positive(src) < 0) && (bi_size(dst) > 0))
+        return bi_sub_from_bits(rt, dst, bits);
 
-    return bi_bits(rt, src, dst, bits);
+    return RJS_OK;
 }
-- 
2.43.0


From acdd24e953ab2072b8a3804fd3e5554e431d9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 035/127] fix: conversions of BigInts from and to int64 do not
 overflow

---
 src/lib/rjs_big_int_internal_opt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 476f0c8..069a96d 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -692,12 +692,12 @@ RJS_Result
 rjs_big_int_from_int64 (RJS_Runtime *rt, RJS_Value *v, int64_t i)
 {
     RJS_BI     *bi;
-    int64_t     a;
+    uint64_t    a;
     RJS_Result  r;
 
     bi = big_int_new(rt, v);
 
-    a = RJS_ABS(i);
+    a = (i < 0) ? - (uint64_t)i : i;
 
     if ((r = bi_set_item(rt, bi, 0, a & 0xffffffff)) == RJS_ERR)
         return r;
@@ -755,7 +755,7 @@ rjs_big_int_to_int64 (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     if (pos == 0) {
         *pi = 0;
     } else {
-        int64_t i;
+        uint64_t i;
 
         i = bi->n[0];
 
@@ -788,7 +788,7 @@ rjs_big_int_to_uint64 (RJS_Runtime *rt, RJS_Value *v, uint64_t *pi)
     if (pos == 0) {
         *pi = 0;
     } else {
-        int64_t i;
+        uint64_t i;
 
         i = bi->n[0];
 
-- 
2.43.0


From 907ea35467f0817904ca1d024062c927ef5f2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 036/127] fix: a negative BigInt to the power 1 keeps its sign

---
 src/lib/rjs_big_int_internal_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 069a96d..eafb358 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1784,6 +1784,7 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
     } else if (e == 1) {
         if ((r = bi_dup(rt, dst, src1)) == RJS_ERR)
             goto end;
+        dst->size = RJS_ABS(dst->size);
     } else {
         bi_map_resize(rt, &emap, 1);
         pbi = emap.items;
-- 
2.43.0


From 192264b9242f2a57ad90c6e6025a5881df644db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 037/127] fix: Number converts BigInts outside of int64

---
 src/lib/rjs_number_object_inc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 45853b8..a0d71a4 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -44,12 +44,10 @@ static RJS_NF(Number_constructor)
 
 #if ENABLE_BIG_INT
         if (rjs_value_is_big_int(rt, prim)) {
-            int64_t i;
-
-            if ((r = rjs_big_int_to_int64(rt, prim, &i)) == RJS_ERR)
+            if ((r = rjs_big_int_to_string(rt, prim, 10, nv)) == RJS_ERR)
                 goto end;
 
-            n = i;
+            n = rjs_string_to_number(rt, nv);
         } else
 #endif /*ENABLE_BIG_INT*/
         {
-- 
2.43.0


From db0c00833cdf53fc9f2c97f5ce84094ce44d3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 038/127] fix: decodeURI does not read past an escape sequence
 cut off by the end of the string

---
 src/lib/rjs_uri_functions_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index 1d7c8fc..cb0cbd8 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -68,7 +68,7 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
         } else {
             int uc, n;
 
-            if (e - c < 2) {
+            if (e - c < 3) {
                 r = throw_uri_error(rt);
                 goto end;
             }
-- 
2.43.0


From 455186a8ce9d2471ce96bf1e85b9ed73f810391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 039/127] fix: decodeURI rejects overlong sequences and
 surrogates

---
 src/lib/rjs_uri_functions_inc.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index cb0cbd8..62b1eb5 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -66,7 +66,7 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             c ++;
         } else {
-            int uc, n;
+            int uc, n, min;
 
             if (e - c < 3) {
                 r = throw_uri_error(rt);
@@ -106,15 +106,19 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             c += 3;
 
             if (!(uc & 0x80)) {
-                n = 0;
+                n   = 0;
+                min = 0;
             } else if ((uc & 0xe0) == 0xc0) {
                 n   = 1;
+                min = 0x80;
                 uc &= 0x1f;
             } else if ((uc & 0xf0) == 0xe0) {
                 n   = 2;
+                min = 0x800;
                 uc &= 0x0f;
             } else if ((uc & 0xf8) == 0xf0) {
                 n   = 3;
+                min = 0x10000;
                 uc &= 0x07;
             } else {
                 r = throw_uri_error(rt);
@@ -152,6 +156,12 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
                 n --;
             }
 
+            /*Overlong sequence, surrogate or not a unicode code point.*/
+            if ((uc < min) || ((uc >= 0xd800) && (uc <= 0xdfff)) || (uc > 0x10ffff)) {
+                r = throw_uri_error(rt);
+                goto end;
+            }
+
             rjs_uchar_buffer_append_uc(rt, &ucb, uc);
         }
     }
-- 
2.43.0


From d0000c5aaae130d7f8ec30a6541c704dac89efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 040/127] fix: Math.hypot does not overflow or underflow in its
 squares

---
 src/lib/rjs_math_object_inc.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_math_object_inc.c b/src/lib/rjs_math_object_inc.c
index a3c1549..1ac4fd2 100644
--- a/src/lib/rjs_math_object_inc.c
+++ b/src/lib/rjs_math_object_inc.c
@@ -398,14 +398,11 @@ static RJS_NF(Math_hypot)
         if (n != 0)
             only_0 = RJS_FALSE;
 
-        rn += n * n;
+        rn = hypot(rn, n);
     }
 
-    if (only_0) {
+    if (only_0)
         rn = 0;
-    } else {
-        rn = sqrt(rn);
-    }
 
     rjs_value_set_number(rt, rv, rn);
     r = RJS_OK;
-- 
2.43.0


From 55a762459a02fb3e0c23a1e89492bb0d7db3d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 041/127] fix: String.prototype.localeCompare compares empty
 strings

---
 src/lib/rjs_uchar_icu_opt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_uchar_icu_opt.c b/src/lib/rjs_uchar_icu_opt.c
index 8cd659e..0513319 100644
--- a/src/lib/rjs_uchar_icu_opt.c
+++ b/src/lib/rjs_uchar_icu_opt.c
@@ -83,7 +83,14 @@ rjs_uchar_is_id_continue (int c)
 int
 rjs_uchars_compare (const RJS_UChar *s1, int l1, const RJS_UChar *s2, int l2)
 {
-    UErrorCode err = U_ZERO_ERROR;
+    static const RJS_UChar empty[1];
+    UErrorCode             err = U_ZERO_ERROR;
+
+    /*An empty string may have no buffer.*/
+    if (!l1)
+        s1 = empty;
+    if (!l2)
+        s2 = empty;
 
     return unorm_compare(s1, l1, s2, l2, U_FOLD_CASE_DEFAULT, &err);
 }
-- 
2.43.0


From 32b5d4324bd67e1167aaf6b216288a13d521090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 042/127] fix: padStart and padEnd do not convert the filler
 when no padding is needed

---
 src/lib/rjs_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 54cf020..7e5aae9 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -1166,7 +1166,7 @@ rjs_string_pad (RJS_Runtime *rt, RJS_Value *o, RJS_Value *max_len, RJS_Value *fi
 
     slen = rjs_string_get_length(rt, str);
 
-    if (ilen < slen) {
+    if (ilen <= slen) {
         rjs_value_copy(rt, rs, str);
         r = RJS_OK;
         goto end;
-- 
2.43.0


From 937036004887402489148a5fd99dfcb026aafeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 043/127] fix: String.prototype.repeat does not overflow the
 result length

---
 src/lib/rjs_string_object_inc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 1f689c1..a6aa180 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -847,7 +847,7 @@ static RJS_NF(String_prototype_repeat)
     size_t     top   = rjs_value_stack_save(rt);
     RJS_Value *str   = rjs_value_stack_push(rt);
     RJS_Number n;
-    size_t     rc;
+    size_t     slen;
     RJS_Result r;
 
     if ((r = rjs_require_object_coercible(rt, thiz)) == RJS_ERR)
@@ -863,12 +863,16 @@ static RJS_NF(String_prototype_repeat)
         r = rjs_throw_range_error(rt, _("repeat count must >= 0 and < infinite"));
         goto end;
     }
-    rc = n;
 
-    if (rc == 0) {
+    slen = rjs_string_get_length(rt, str);
+
+    if ((n == 0) || (slen == 0)) {
         rjs_value_copy(rt, rv, rjs_s_empty(rt));
+    } else if (n * slen > RJS_MAX_INT) {
+        r = rjs_throw_range_error(rt, _("string is too long"));
+        goto end;
     } else {
-        size_t           slen = rjs_string_get_length(rt, str);
+        size_t           rc   = n;
         size_t           rlen = rc * slen;
         size_t           i;
         RJS_UChar       *d;
-- 
2.43.0


From b0b1ff1bfa717fc31461041a1cbaac62fa750118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 044/127] fix: JSON.stringify reads each property once

---
 src/lib/rjs_json_opt.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 32031fa..0aaea38 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -694,7 +694,6 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
     RJS_Value         *stepback = rjs_value_stack_push(rt);
     RJS_Value         *indent   = rjs_value_stack_push(rt);
     RJS_Value         *keys     = rjs_value_stack_push(rt);
-    RJS_Value         *kv       = rjs_value_stack_push(rt);
     RJS_Value         *str      = rjs_value_stack_push(rt);
     RJS_Bool           empty    = RJS_TRUE;
     RJS_UCharBuffer    ucb;
@@ -739,10 +738,9 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
             r = rjs_object_get_own_property(rt, value, &pn, &pd);
-            if (r == RJS_OK) {
-                if (r && !(pd.flags & RJS_PROP_FL_ENUMERABLE))
-                    rjs_value_set_undefined(rt, key);
-            }
+            if ((r == RJS_FALSE)
+                    || ((r == RJS_OK) && !(pd.flags & RJS_PROP_FL_ENUMERABLE)))
+                rjs_value_set_undefined(rt, key);
             rjs_property_name_deinit(rt, &pn);
 
             if (r == RJS_ERR)
@@ -759,23 +757,20 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
 
-            r = rjs_get(rt, value, &pn, kv);
+            r = serialize_json_property(rt, js, &pn, value, str);
             if (r == RJS_OK) {
-                r = serialize_json_property(rt, js, &pn, value, str);
-                if (r == RJS_OK) {
-                    if (rjs_value_is_string(rt, str)) {
-                        if (!empty)
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
+                if (rjs_value_is_string(rt, str)) {
+                    if (!empty)
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
 
-                        if (js->gap) {
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
-                            rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
-                        }
+                    if (js->gap) {
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
+                        rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
+                    }
 
-                        serialize_key_value(rt, js, &ucb, key, str);
+                    serialize_key_value(rt, js, &ucb, key, str);
 
-                        empty = RJS_FALSE;
-                    }
+                    empty = RJS_FALSE;
                 }
             }
 
-- 
2.43.0


From a6e7905c35242ca4bc23837d98931bce9abf380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 045/127] fix: regular expression matching of empty iterations,
 unmatched groups, ignored case, classes and source text

---
 src/lib/include/rjs_uchar.h |  28 +++++++
 src/lib/rjs_regexp.c        | 159 ++++++++++++++++++++++++++----------
 src/lib/rjs_uchar_icu_opt.c |  38 ++++++++-
 3 files changed, 183 insertions(+), 42 deletions(-)

diff --git a/src/lib/include/rjs_uchar.h b/src/lib/include/rjs_uchar.h
index 087ab0b..66c4da5 100644
--- a/src/lib/include/rjs_uchar.h
+++ b/src/lib/include/rjs_uchar.h
@@ -209,6 +209,16 @@ rjs_uchars_normalize (const RJS_UChar *s, int slen, RJS_UChar *d, int dlen, cons
 RJS_INTERNAL int
 rjs_uchar_fold_case (int c);
 
+/**
+ * Get the characters which differ from the character only in case.
+ * \param c The input character.
+ * \param[out] variants Return the variants.
+ * \param num Capacity of the variants buffer.
+ * \return The number of the variants.
+ */
+RJS_INTERNAL int
+rjs_uchar_case_variants (int c, int *variants, int num);
+
 #else /*ENC_CONV != ENC_CONV_ICU*/
 
 static inline RJS_Bool
@@ -265,6 +275,24 @@ rjs_uchar_fold_case (int c)
     return c;
 }
 
+/**
+ * Get the characters which differ from the character only in case.
+ * \param c The input character.
+ * \param[out] variants Return the variants.
+ * \param num Capacity of the variants buffer.
+ * \return The number of the variants.
+ */
+static inline int
+rjs_uchar_case_variants (int c, int *variants, int num)
+{
+    if (num && (((c >= 'a') && (c <= 'z')) || ((c >= 'A') && (c <= 'Z')))) {
+        variants[0] = c ^ ('a' - 'A');
+        return 1;
+    }
+
+    return 0;
+}
+
 #endif /*ENC_CONV == ENC_CONV_ICU*/
 
 /**
diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index a3bdcc3..c33616a 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -971,23 +971,23 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
 
         c = get_uc(rt, p);
         if (c == '-') {
-            if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
-                regexp_parse_error(rt, p, _("only normal character can be used in range"));
-                return RJS_ERR;
-            }
-
-            min = mc.c.c;
-            max = mc.c.c;
-
             c = get_uc(rt, p);
             unget_uc(rt, p, c);
 
             if (c == ']') {
                 unget_uc(rt, p, '-');
 
-                ca.type  = mc.type;
-                ca.a.c.c = mc.c.c;
+                ca.type = mc.type;
+                ca.a.c  = mc.c;
             } else {
+                if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
+                    regexp_parse_error(rt, p, _("only normal character can be used in range"));
+                    return RJS_ERR;
+                }
+
+                min = mc.c.c;
+                max = mc.c.c;
+
                 if ((r = parse_class_atom(rt, p, &mc)) == RJS_ERR)
                     return r;
 
@@ -1015,8 +1015,8 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
         } else {
             unget_uc(rt, p, c);
 
-            ca.type  = mc.type;
-            ca.a.c.c = mc.c.c;
+            ca.type = mc.type;
+            ca.a.c  = mc.c;
         }
 
         rjs_vector_append(&term->t.clazz.atoms, ca, rt);
@@ -1492,6 +1492,8 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     RJS_UCharBuffer  ucb;
     const RJS_UChar *c, *e;
     size_t           len;
+    RJS_Bool         escape   = RJS_FALSE;
+    RJS_Bool         in_class = RJS_FALSE;
 
     len = rjs_string_get_length(rt, src);
     if (len == 0) {
@@ -1507,21 +1509,38 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     while (c < e) {
         switch (*c) {
         case '\n':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+            if (!escape)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
             rjs_uchar_buffer_append_uchar(rt, &ucb, 'n');
             break;
         case '\r':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+            if (!escape)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
             rjs_uchar_buffer_append_uchar(rt, &ucb, 'r');
             break;
+        case 0x2028:
+        case 0x2029:
+            if (!escape)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+            rjs_uchar_buffer_append_chars(rt, &ucb, (*c == 0x2028) ? "u2028" : "u2029", -1);
+            break;
         case '/':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+            if (!escape && !in_class)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
             rjs_uchar_buffer_append_uchar(rt, &ucb, '/');
             break;
         default:
+            if (!escape) {
+                if (*c == '[')
+                    in_class = RJS_TRUE;
+                else if (*c == ']')
+                    in_class = RJS_FALSE;
+            }
             rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             break;
         }
+
+        escape = !escape && (*c == '\\');
         c ++;
     }
 
@@ -1823,6 +1842,9 @@ rjs_regexp_new (RJS_Runtime *rt, RJS_Value *v, RJS_Value *src, RJS_Value *flags)
     return rjs_regexp_create(rt, src, flags, v);
 }
 
+/*The maximum number of the characters differ from a character only in case.*/
+#define RJS_REGEXP_CASE_VARIANT_NUM 8
+
 /*Canonicalize the character.*/
 static int
 canonicalize (int c, int flags)
@@ -1838,6 +1860,8 @@ canonicalize (int c, int flags)
 
         if (rjs_uchars_to_upper(&cin, 1, &cout, 1, "") > 1)
             r = c;
+        else if ((cin >= 128) && (cout < 128))
+            r = c;
         else
             r = cout;
     } else {
@@ -1961,9 +1985,16 @@ regexp_adv_str_index (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, size_t index, RJS_B
 
 /*Check if the character is a word.*/
 static RJS_Bool
-is_word (int c)
+is_word (int c, int flags)
 {
-    return rjs_uchar_is_alnum(c) || (c == '_');
+    if (rjs_uchar_is_alnum(c) || (c == '_'))
+        return RJS_TRUE;
+
+    /*The characters fold to a word character.*/
+    if ((c >= 128) && (flags & RJS_REGEXP_FL_I) && (flags & RJS_REGEXP_FL_U))
+        return rjs_uchar_is_alnum(rjs_uchar_fold_case(c));
+
+    return RJS_FALSE;
 }
 
 /*Match the alternative.*/
@@ -2070,9 +2101,9 @@ job_success (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpJob *job, RJS_RegE
     return r;
 }
 
-/*Match the character.*/
+/*Check if the character belongs to the character set.*/
 static RJS_Bool
-match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c, int flags)
+char_set_contains (RJS_RegExpCharType t, RJS_RegExpCharData *d, int c, int flags)
 {
     RJS_Bool r;
 
@@ -2084,7 +2115,7 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_w:
-        r = is_word(c);
+        r = is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_S:
         r = !rjs_uchar_is_white_space(c);
@@ -2093,17 +2124,17 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = !rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_W:
-        r = !is_word(c);
+        r = !is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_NORMAL:
-        r = canonicalize(c, flags) == canonicalize(d->c, flags);
+        r = (c == d->c);
         break;
 #if ENABLE_UNICODE_PROPERTY
     case RJS_REGEXP_CHAR_p:
-        r = unicode_property_match(d->p.prop, d->p.value, canonicalize(c, flags));
+        r = unicode_property_match(d->p.prop, d->p.value, c);
         break;
     case RJS_REGEXP_CHAR_P:
-        r = !unicode_property_match(d->p.prop, d->p.value, canonicalize(c, flags));
+        r = !unicode_property_match(d->p.prop, d->p.value, c);
         break;
 #endif /*ENABLE_UNICODE_PROPERTY*/
     default:
@@ -2115,23 +2146,69 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
     return r;
 }
 
+/*Get the characters equal to the character when the case is ignored.*/
+static int
+get_case_variants (int c, int flags, int *variants, int num)
+{
+    int i, n, cnt = 0;
+
+    if (!(flags & RJS_REGEXP_FL_I))
+        return 0;
+
+    n = rjs_uchar_case_variants(c, variants, num);
+
+    for (i = 0; i < n; i ++) {
+        if (canonicalize(variants[i], flags) == canonicalize(c, flags))
+            variants[cnt ++] = variants[i];
+    }
+
+    return cnt;
+}
+
+/*Match the character.*/
+static RJS_Bool
+match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c, int flags)
+{
+    int variants[RJS_REGEXP_CASE_VARIANT_NUM];
+    int i, n;
+
+    if (t == RJS_REGEXP_CHAR_NORMAL)
+        return canonicalize(c, flags) == canonicalize(d->c, flags);
+
+    if (char_set_contains(t, d, c, flags))
+        return RJS_TRUE;
+
+    n = get_case_variants(c, flags, variants, RJS_REGEXP_CASE_VARIANT_NUM);
+
+    for (i = 0; i < n; i ++) {
+        if (char_set_contains(t, d, variants[i], flags))
+            return RJS_TRUE;
+    }
+
+    return RJS_FALSE;
+}
+
 /*Match the class atom.*/
 static RJS_Bool
 match_class_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpClassAtom *atom, int c)
 {
-    RJS_Bool r;
+    int variants[RJS_REGEXP_CASE_VARIANT_NUM];
+    int i, n;
 
-    if (atom->type != -1) {
-        r = match_char(rt, atom->type, &atom->a.c, c, ctxt->flags);
-    } else {
-        int min = canonicalize(atom->a.range.min, ctxt->flags);
-        int max = canonicalize(atom->a.range.max, ctxt->flags);
-        int v   = canonicalize(c, ctxt->flags);
+    if (atom->type != -1)
+        return match_char(rt, atom->type, &atom->a.c, c, ctxt->flags);
 
-        r = (v >= min) && (v <= max);
+    if ((c >= atom->a.range.min) && (c <= atom->a.range.max))
+        return RJS_TRUE;
+
+    n = get_case_variants(c, ctxt->flags, variants, RJS_REGEXP_CASE_VARIANT_NUM);
+
+    for (i = 0; i < n; i ++) {
+        if ((variants[i] >= atom->a.range.min) && (variants[i] <= atom->a.range.max))
+            return RJS_TRUE;
     }
 
-    return r;
+    return RJS_FALSE;
 }
 
 /*Match the character class.*/
@@ -2385,14 +2462,14 @@ match_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpTerm *term)
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) == is_word(nc))
+        if (is_word(c, ctxt->flags) == is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_B:
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) != is_word(nc))
+        if (is_word(c, ctxt->flags) != is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_BR_ID:
@@ -2521,13 +2598,12 @@ match_term (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpPattern *pat, RJS_R
     if ((term->min == 0) && (term->max == 0))
         return RJS_REGEXP_NEXT;
 
-    if (cnt > term->min) {
-        if ((term->max != -1) && (cnt > term->max))
-            return RJS_REGEXP_NEXT;
+    /*An optional iteration must not match the empty string.*/
+    if ((cnt > 1) && (cnt - 1 > term->min) && (pos == ctxt->pos))
+        return RJS_REGEXP_REJECT;
 
-        if ((cnt > 1) && (pos == ctxt->pos))
-            return RJS_REGEXP_NEXT;
-    }
+    if ((term->max != -1) && (cnt > term->min) && (cnt > term->max))
+        return RJS_REGEXP_NEXT;
 
     if (cnt <= term->min) {
         size_t         jid;
@@ -2943,6 +3019,7 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
 
         if ((start == -1) || (end == -1)) {
             rjs_value_set_undefined(rt, sub);
+            rjs_create_data_property_or_throw_index(rt, rv, i, sub);
 
             if (has_indices)
                 rjs_value_set_undefined(rt, indice);
diff --git a/src/lib/rjs_uchar_icu_opt.c b/src/lib/rjs_uchar_icu_opt.c
index 0513319..349a1bc 100644
--- a/src/lib/rjs_uchar_icu_opt.c
+++ b/src/lib/rjs_uchar_icu_opt.c
@@ -34,7 +34,7 @@
 RJS_Bool
 rjs_uchar_is_white_space (int c)
 {
-    return u_isUWhiteSpace(c) || (c == 0xfeff);
+    return (u_isUWhiteSpace(c) && (c != 0x85)) || (c == 0xfeff);
 }
 
 /**
@@ -106,6 +106,42 @@ rjs_uchar_fold_case (int c)
     return u_foldCase(c, U_FOLD_CASE_DEFAULT);
 }
 
+/**
+ * Get the characters which differ from the character only in case.
+ * \param c The input character.
+ * \param[out] variants Return the variants.
+ * \param num Capacity of the variants buffer.
+ * \return The number of the variants.
+ */
+int
+rjs_uchar_case_variants (int c, int *variants, int num)
+{
+    USet      *set;
+    UErrorCode err = U_ZERO_ERROR;
+    UChar32    start, end, m;
+    int        i, range_num;
+    int        n = 0;
+
+    set = uset_open(c, c);
+    uset_closeOver(set, USET_CASE_INSENSITIVE);
+
+    range_num = uset_getItemCount(set);
+
+    for (i = 0; i < range_num; i ++) {
+        if (uset_getItem(set, i, &start, &end, NULL, 0, &err) != 0)
+            break;
+
+        for (m = start; m <= end; m ++) {
+            if ((m != c) && (n < num))
+                variants[n ++] = m;
+        }
+    }
+
+    uset_close(set);
+
+    return n;
+}
+
 /**
  * Convert the characters to uppercase if a is a lowecase character.
  * \param s Input characters.
-- 
2.43.0


From 8f975b50ab17eca228e4fb249436c24c3135f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 046/127] fix: RegExp replace and toString follow the protocol,
 code unit patterns without the flag u

---
 src/lib/rjs_regexp.c            |  28 ++++-
 src/lib/rjs_regexp_object_inc.c | 199 ++++++++++++++++++--------------
 src/lib/rjs_string.c            |   6 +-
 3 files changed, 144 insertions(+), 89 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index c33616a..6792e7d 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -432,14 +432,32 @@ regexp_parser_deinit (RJS_Runtime *rt, RJS_RegExpParser *p)
 static int
 get_uc (RJS_Runtime *rt, RJS_RegExpParser *p)
 {
-    return rjs_input_get_uc(rt, &p->si);
+    RJS_Input *si = &p->si;
+
+    if (p->flags & RJS_REGEXP_FL_U)
+        return rjs_input_get_uc(rt, si);
+
+    /*Without the flag "u", the pattern's characters are code units.*/
+    if (si->pos >= si->length)
+        return RJS_INPUT_END;
+
+    si->column ++;
+
+    return rjs_string_get_uchar(rt, si->str, si->pos ++);
 }
 
 /*Push back a unicode character.*/
 static void
 unget_uc (RJS_Runtime *rt, RJS_RegExpParser *p, int uc)
 {
-    rjs_input_unget_uc(rt, &p->si, uc);
+    if (p->flags & RJS_REGEXP_FL_U) {
+        rjs_input_unget_uc(rt, &p->si, uc);
+    } else if (uc >= 0) {
+        assert(p->si.pos > 0);
+
+        p->si.pos --;
+        p->si.column --;
+    }
 }
 
 /*Output parse error message.*/
@@ -841,6 +859,7 @@ parse_group_name (RJS_Runtime *rt, RJS_RegExpParser *p)
     RJS_HashEntry       *he, **phe;
     RJS_String          *str;
     RJS_RegExpNameEntry *ne = NULL;
+    int                  flags = p->flags;
 
     c = get_uc(rt, p);
     if (c != '<') {
@@ -850,6 +869,9 @@ parse_group_name (RJS_Runtime *rt, RJS_RegExpParser *p)
 
     rjs_uchar_buffer_init(rt, &text);
 
+    /*The group name is always read as code points.*/
+    p->flags |= RJS_REGEXP_FL_U;
+
     if ((c = parse_uc(rt, p, RJS_REGEXP_FL_U)) == RJS_ERR)
         goto end;
 
@@ -903,6 +925,8 @@ parse_group_name (RJS_Runtime *rt, RJS_RegExpParser *p)
         rjs_list_append(&p->name_list, &ne->ln);
     }
 end:
+    p->flags = flags;
+
     rjs_uchar_buffer_deinit(rt, &text);
     return ne;
 }
diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 6b75315..89f5499 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -378,75 +378,102 @@ end:
     return r;
 }
 
-/*Invoke the replace function.*/
+/*Get the replacement of a match result.*/
 static RJS_Result
-replace_func (RJS_Runtime *rt, RJS_Value *s, RJS_Value *fn, RJS_Value *mstr, size_t pos, RJS_Value *match, RJS_Value *rstr)
+get_replacement (RJS_Runtime *rt, RJS_Value *s, RJS_Value *repv, RJS_Bool func_rep, RJS_Value *match,
+        size_t *ppos, size_t *pmlen, RJS_Value *rstr)
 {
     size_t     top    = rjs_value_stack_save(rt);
-    RJS_Value *lenv   = rjs_value_stack_push(rt);
-    RJS_Value *groups = rjs_value_stack_push(rt);
+    RJS_Value *mstr   = rjs_value_stack_push(rt);
+    RJS_Value *caps   = rjs_value_stack_push(rt);
     RJS_Value *cap    = rjs_value_stack_push(rt);
+    RJS_Value *str    = rjs_value_stack_push(rt);
+    RJS_Value *groups = rjs_value_stack_push(rt);
     RJS_Value *res    = rjs_value_stack_push(rt);
-    RJS_Value *args, *arg;
-    size_t     argc;
-    int64_t    i, len, aid;
+    size_t     len    = rjs_string_get_length(rt, s);
+    int64_t    i, ncap;
+    RJS_Number posn;
     RJS_Result r;
 
-    argc = 3;
-
-    if ((r = rjs_get(rt, match, rjs_pn_length(rt), lenv)) == RJS_ERR)
+    if ((r = rjs_length_of_array_like(rt, match, &ncap)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_to_length(rt, lenv, &len)) == RJS_ERR)
+    if ((r = rjs_get_index(rt, match, 0, cap)) == RJS_ERR)
         goto end;
-
-    if (len > 1)
-        argc += len - 1;
-
-    if ((r = rjs_get(rt, match, rjs_pn_groups(rt), groups)) == RJS_ERR)
+    if ((r = rjs_to_string(rt, cap, mstr)) == RJS_ERR)
         goto end;
 
-    if (!rjs_value_is_undefined(rt, groups))
-        argc ++;
+    if ((r = rjs_get(rt, match, rjs_pn_index(rt), cap)) == RJS_ERR)
+        goto end;
+    if ((r = rjs_to_integer_or_infinity(rt, cap, &posn)) == RJS_ERR)
+        goto end;
 
-    args = rjs_value_stack_push_n(rt, argc);
-    arg  = args;
-    aid  = 0;
+    *ppos  = RJS_CLAMP(posn, 0, len);
+    *pmlen = rjs_string_get_length(rt, mstr);
 
-    rjs_value_copy(rt, arg, mstr);
-    aid ++;
+    /*Read the captures.*/
+    if ((r = rjs_array_new(rt, caps, 0, NULL)) == RJS_ERR)
+        goto end;
+    if ((r = rjs_create_data_property_or_throw_index(rt, caps, 0, mstr)) == RJS_ERR)
+        goto end;
 
-    for (i = 1; i < len; i ++) {
+    for (i = 1; i < ncap; i ++) {
         if ((r = rjs_get_index(rt, match, i, cap)) == RJS_ERR)
             goto end;
 
-        arg = rjs_value_buffer_item(rt, args, aid);
-        aid ++;
+        if (!rjs_value_is_undefined(rt, cap)) {
+            if ((r = rjs_to_string(rt, cap, str)) == RJS_ERR)
+                goto end;
+
+            rjs_value_copy(rt, cap, str);
+        }
 
-        if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, caps, i, cap)) == RJS_ERR)
             goto end;
     }
 
-    arg = rjs_value_buffer_item(rt, args, aid);
-    rjs_value_set_number(rt, arg, pos);
-    aid ++;
+    if ((r = rjs_get(rt, match, rjs_pn_groups(rt), groups)) == RJS_ERR)
+        goto end;
 
-    arg = rjs_value_buffer_item(rt, args, aid);
-    rjs_value_copy(rt, arg, s);
-    aid ++;
+    if (func_rep) {
+        size_t     argc = RJS_MAX(ncap, 1) + 2;
+        RJS_Value *args, *arg;
 
-    if (!rjs_value_is_undefined(rt, groups)) {
-        arg = rjs_value_buffer_item(rt, args, aid);
-        aid ++;
+        if (!rjs_value_is_undefined(rt, groups))
+            argc ++;
 
-        rjs_value_copy(rt, arg, groups);
-    }
+        args = rjs_value_stack_push_n(rt, argc);
 
-    if ((r = rjs_call(rt, fn, rjs_v_undefined(rt), args, argc, res)) == RJS_ERR)
-        goto end;
+        for (i = 0; i < RJS_MAX(ncap, 1); i ++) {
+            arg = rjs_value_buffer_item(rt, args, i);
 
-    if ((r = rjs_to_string(rt, res, rstr)) == RJS_ERR)
-        goto end;
+            if ((r = rjs_get_index(rt, caps, i, arg)) == RJS_ERR)
+                goto end;
+        }
+
+        arg = rjs_value_buffer_item(rt, args, i);
+        rjs_value_set_number(rt, arg, *ppos);
+
+        arg = rjs_value_buffer_item(rt, args, i + 1);
+        rjs_value_copy(rt, arg, s);
+
+        if (!rjs_value_is_undefined(rt, groups)) {
+            arg = rjs_value_buffer_item(rt, args, i + 2);
+            rjs_value_copy(rt, arg, groups);
+        }
+
+        if ((r = rjs_call(rt, repv, rjs_v_undefined(rt), args, argc, res)) == RJS_ERR)
+            goto end;
+
+        if ((r = rjs_to_string(rt, res, rstr)) == RJS_ERR)
+            goto end;
+    } else {
+        if ((r = rjs_create_data_property_or_throw(rt, caps, rjs_pn_groups(rt), groups)) == RJS_ERR)
+            goto end;
+
+        if ((r = rjs_get_substitution(rt, s, *ppos, caps, repv, rstr)) == RJS_ERR)
+            goto end;
+    }
 
     r = RJS_OK;
 end:
@@ -469,7 +496,9 @@ static RJS_NF(RegExp_prototype_replace)
     RJS_Value *mstrv   = rjs_value_stack_push(rt);
     RJS_Value *mstr    = rjs_value_stack_push(rt);
     RJS_Value *rstr    = rjs_value_stack_push(rt);
+    RJS_Value *results = rjs_value_stack_push(rt);
     size_t     len, start;
+    size_t     i, nres;
     RJS_Bool   func_rep, global, unicode = RJS_FALSE;
     RJS_UCharBuffer  ucb;
     const RJS_UChar *chars;
@@ -508,13 +537,14 @@ static RJS_NF(RegExp_prototype_replace)
             goto end;
     }
 
-    chars = rjs_string_get_uchars(rt, s);
-    start = 0;
+    /*Collect the match results.*/
+    if ((r = rjs_array_new(rt, results, 0, NULL)) == RJS_ERR)
+        goto end;
+
+    nres = 0;
 
     while (1) {
-        RJS_Number posn;
-        size_t     pos;
-        int64_t    idx;
+        int64_t idx;
 
         if ((r = rjs_regexp_exec(rt, thiz, s, match)) == RJS_ERR)
             goto end;
@@ -522,61 +552,55 @@ static RJS_NF(RegExp_prototype_replace)
         if (rjs_value_is_null(rt, match))
             break;
 
-        if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, results, nres, match)) == RJS_ERR)
             goto end;
 
-        if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
-            goto end;
+        nres ++;
 
-        pos = RJS_CLAMP(posn, 0, len);
+        if (!global)
+            break;
 
-        if (pos >= start) {
-            if (pos > start) {
-                rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
-            }
+        if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
+            goto end;
 
-            if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
-                goto end;
+        if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            goto end;
 
-            if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+        if (rjs_string_get_length(rt, mstr) == 0) {
+            if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
                 goto end;
 
-            if (func_rep) {
-                r = replace_func(rt, s, repv, mstr, pos, match, rstr);
-            } else {
-                r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
-            }
-
-            if (r == RJS_ERR)
+            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
                 goto end;
 
-            rjs_uchar_buffer_append_string(rt, &ucb, rstr);
+            idx = adv_str_index(rt, s, idx, unicode);
 
-            if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
-                goto end;
+            rjs_value_set_number(rt, idxv, idx);
 
-            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
+            if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
                 goto end;
+        }
+    }
 
-            start = idx + rjs_string_get_length(rt, mstr);
-
-            if (!global)
-                break;
+    /*Replace the matched strings.*/
+    chars = rjs_string_get_uchars(rt, s);
+    start = 0;
 
-            if (rjs_string_get_length(rt, mstr) == 0) {
-                if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
-                    goto end;
+    for (i = 0; i < nres; i ++) {
+        size_t pos, mlen;
 
-                if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
-                    goto end;
+        if ((r = rjs_get_index(rt, results, i, match)) == RJS_ERR)
+            goto end;
 
-                idx = adv_str_index(rt, s, idx, unicode);
+        r = get_replacement(rt, s, func_rep ? repv : rep_str, func_rep, match, &pos, &mlen, rstr);
+        if (r == RJS_ERR)
+            goto end;
 
-                rjs_value_set_number(rt, idxv, idx);
+        if (pos >= start) {
+            rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
+            rjs_uchar_buffer_append_string(rt, &ucb, rstr);
 
-                if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
-                    goto end;
-            }
+            start = pos + mlen;
         }
     }
 
@@ -835,6 +859,7 @@ static RJS_NF(RegExp_prototype_toString)
     size_t     top    = rjs_value_stack_save(rt);
     RJS_Value *pat    = rjs_value_stack_push(rt);
     RJS_Value *flags  = rjs_value_stack_push(rt);
+    RJS_Value *v      = rjs_value_stack_push(rt);
     RJS_UCharBuffer ucb;
     RJS_Result r;
 
@@ -843,10 +868,14 @@ static RJS_NF(RegExp_prototype_toString)
         goto end;
     }
 
-    if ((r = rjs_get(rt, thiz, rjs_pn_source(rt), pat)) == RJS_ERR)
+    if ((r = rjs_get(rt, thiz, rjs_pn_source(rt), v)) == RJS_ERR)
+        goto end;
+    if ((r = rjs_to_string(rt, v, pat)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_get(rt, thiz, rjs_pn_flags(rt), flags)) == RJS_ERR)
+    if ((r = rjs_get(rt, thiz, rjs_pn_flags(rt), v)) == RJS_ERR)
+        goto end;
+    if ((r = rjs_to_string(rt, v, flags)) == RJS_ERR)
         goto end;
 
     rjs_uchar_buffer_init(rt, &ucb);
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 7e5aae9..1b347ad 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -1481,8 +1481,10 @@ rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
                     c ++;
                     break;
                 case '\'':
-                    rjs_string_substr(rt, str, pos + mlen, slen, sub);
-                    rjs_uchar_buffer_append_string(rt, &ucb, sub);
+                    if (pos + mlen < slen) {
+                        rjs_string_substr(rt, str, pos + mlen, slen, sub);
+                        rjs_uchar_buffer_append_string(rt, &ucb, sub);
+                    }
                     c ++;
                     break;
                 case '<':
-- 
2.43.0


From b90bd2b7de8bad50725b2004f0b62139ba08d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 047/127] fix: splice and unshift move only the elements they
 have to

---
 src/lib/rjs_array_object_inc.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index e32663a..c593d21 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -144,10 +144,14 @@ static RJS_NF(Array_from)
                 goto end;
             }
 
-            if ((r = rjs_iterator_step(rt, &iter_rec, next)) == RJS_ERR)
+            if ((r = rjs_iterator_step(rt, &iter_rec, next)) == RJS_ERR) {
+                use_iter = RJS_FALSE;
                 goto end;
+            }
 
             if (!r) {
+                use_iter = RJS_FALSE;
+
                 rjs_value_set_number(rt, lenv, k);
 
                 if ((r = rjs_set(rt, rv, rjs_pn_length(rt), lenv, RJS_TRUE)) == RJS_ERR)
@@ -155,8 +159,10 @@ static RJS_NF(Array_from)
                 break;
             }
 
-            if ((r = rjs_iterator_value(rt, next, kv)) == RJS_ERR)
+            if ((r = rjs_iterator_value(rt, next, kv)) == RJS_ERR) {
+                use_iter = RJS_FALSE;
                 goto end;
+            }
 
             if (mapping) {
                 rjs_value_set_number(rt, iv, k);
@@ -2490,7 +2496,7 @@ static RJS_NF(Array_prototype_splice)
         goto end;
 
     if (insert_cnt < act_del_cnt) {
-        for (k = act_start; k < len; k ++) {
+        for (k = act_start; k < len - act_del_cnt; k ++) {
             rjs_value_set_number(rt, idx, k + act_del_cnt);
             rjs_to_string(rt, idx, pk);
 
@@ -2517,7 +2523,7 @@ static RJS_NF(Array_prototype_splice)
                 goto end;
         }
     } else if (insert_cnt > act_del_cnt) {
-        for (k = len - act_del_cnt; k >= act_start; k --) {
+        for (k = len - act_del_cnt; k > act_start; k --) {
             rjs_value_set_number(rt, idx, k + act_del_cnt - 1);
             rjs_to_string(rt, idx, pk);
 
@@ -2905,7 +2911,7 @@ static RJS_NF(Array_prototype_unshift)
             goto end;
         }
 
-        for (k = len; k >= 0; k --) {
+        for (k = len; k > 0; k --) {
             rjs_value_set_number(rt, idx, k - 1);
             rjs_to_string(rt, idx, pk);
 
-- 
2.43.0


From 31119bcb871e7a8228eeeec207e28f0632d1c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 048/127] fix: an array emptied while its elements are in a
 tree can be filled again

---
 src/lib/rjs_object.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_object.c b/src/lib/rjs_object.c
index 0e11f04..ac18cac 100644
--- a/src/lib/rjs_object.c
+++ b/src/lib/rjs_object.c
@@ -127,18 +127,15 @@ prop_rbt_to_vec (RJS_Runtime *rt, RJS_Rbt *rbt, size_t len)
     RJS_Property *vec;
     size_t        i;
 
-    if (!rbt)
-        return NULL;
-
     RJS_NEW_N(rt, vec, len);
 
     for (i = 0; i < len; i ++)
         vec[i].attrs = RJS_PROP_ATTR_DELETED;
 
-    if (rbt)
+    if (rbt) {
         prop_rbt_set_vec(rt, rbt, vec, len);
-
-    prop_rbt_free_all(rt, rbt);
+        prop_rbt_free_all(rt, rbt);
+    }
 
     return vec;
 }
-- 
2.43.0


From 1fa4581cca7f5a1f00a9bc9540b0acf43383d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 049/127] fix: a typed array's [[Set]] with another receiver,
 and no index keys once detached

---
 src/lib/rjs_int_indexed_object_opt.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_int_indexed_object_opt.c b/src/lib/rjs_int_indexed_object_opt.c
index 5366144..5510fd9 100644
--- a/src/lib/rjs_int_indexed_object_opt.c
+++ b/src/lib/rjs_int_indexed_object_opt.c
@@ -263,11 +263,17 @@ int_indexed_object_op_set (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn,
 
     if (rjs_value_is_string(rt, pn->name)
             && rjs_canonical_numeric_index_string(rt, pn->name, &n)) {
-        r = rjs_int_indexed_element_set(rt, o, n, pv);
-    } else {
-        r = rjs_ordinary_object_op_set(rt, o, pn, pv, receiver);
+        size_t idx;
+
+        if (rjs_same_value(rt, o, receiver))
+            return rjs_int_indexed_element_set(rt, o, n, pv);
+
+        if (!rjs_is_valid_int_index(rt, o, n, &idx))
+            return RJS_TRUE;
     }
 
+    r = rjs_ordinary_object_op_set(rt, o, pn, pv, receiver);
+
     return r;
 }
 
@@ -298,14 +304,17 @@ int_indexed_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Valu
     size_t                top = rjs_value_stack_save(rt);
     RJS_Value            *tmp = rjs_value_stack_push(rt);
     RJS_PropertyKeyList  *pkl;
-    size_t                i, cap;
+    size_t                i, len, cap;
     RJS_Result            r;
 
-    cap = iio->array_length + iio->object.array_item_num + iio->object.prop_hash.entry_num;
+    /*There is no valid integer index when the buffer is detached.*/
+    len = rjs_is_detached_buffer(rt, &iio->buffer) ? 0 : iio->array_length;
+
+    cap = len + iio->object.array_item_num + iio->object.prop_hash.entry_num;
 
     pkl = rjs_property_key_list_new(rt, keys, cap);
 
-    for (i = 0; i < iio->array_length; i ++) {
+    for (i = 0; i < len; i ++) {
         RJS_Value *kv = pkl->keys.items + pkl->keys.item_num ++;
 
         rjs_value_set_number(rt, tmp, i);
-- 
2.43.0


From ee8f8392fa2ff5f183d610ea7d46a9b010bd83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 050/127] fix: TypedArray.prototype.slice copies bytes in order
 when the buffers overlap

---
 src/lib/rjs_typed_array_object_inc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 3f9a229..04f86ba 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -1607,7 +1607,8 @@ static RJS_NF(TypedArray_prototype_slice)
             }
         } else {
             RJS_ArrayBuffer *sab, *tab;
-            size_t           esize;
+            uint8_t         *sp, *tp;
+            size_t           esize, i;
 
             sab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &siio->buffer);
             tab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &tiio->buffer);
@@ -1617,9 +1618,12 @@ static RJS_NF(TypedArray_prototype_slice)
             rjs_array_buffer_lock(rt, &siio->buffer);
             rjs_array_buffer_lock(rt, &tiio->buffer);
 
-            memcpy(rjs_data_block_get_buffer(tab->data_block) + tiio->byte_offset,
-                    rjs_data_block_get_buffer(sab->data_block) + siio->byte_offset + k * esize,
-                    count * esize);
+            sp = rjs_data_block_get_buffer(sab->data_block) + siio->byte_offset + k * esize;
+            tp = rjs_data_block_get_buffer(tab->data_block) + tiio->byte_offset;
+
+            /*The buffers may overlap, copy byte by byte.*/
+            for (i = 0; i < count * esize; i ++)
+                tp[i] = sp[i];
 
             rjs_array_buffer_unlock(rt, &tiio->buffer);
             rjs_array_buffer_unlock(rt, &siio->buffer);
-- 
2.43.0


From 6afca0be595bc2e9c6b379d4bffa280298d3d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 051/127] fix: ArrayBuffer.prototype.byteLength of a detached
 buffer is 0

---
 src/lib/rjs_array_buffer_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_array_buffer_object_inc.c b/src/lib/rjs_array_buffer_object_inc.c
index 6909880..c6854f7 100644
--- a/src/lib/rjs_array_buffer_object_inc.c
+++ b/src/lib/rjs_array_buffer_object_inc.c
@@ -243,7 +243,8 @@ static RJS_NF(ArrayBuffer_prototype_byteLength_get)
     }
 
     if (rjs_is_detached_buffer(rt, thiz)) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        rjs_value_set_number(rt, rv, 0);
+        r = RJS_OK;
         goto end;
     }
 
-- 
2.43.0


From 5a0efdf6767d0ec3e1314191a29ae2d1d7476973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 052/127] fix: equal BigInts are the same Map and Set key

---
 include/ratjs/rjs_operation.h      |  4 ++++
 src/lib/rjs_big_int_gmp_opt.c      | 21 +++++++++++++++++++++
 src/lib/rjs_big_int_internal_opt.c | 21 +++++++++++++++++++++
 src/lib/rjs_hash.c                 |  5 +++++
 4 files changed, 51 insertions(+)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index f1a024f..9f45a20 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -342,6 +342,10 @@ rjs_number_same_value_0 (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
 extern RJS_Bool
 rjs_big_int_same_value (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2);
 
+/*Get the hash key of the big integer.*/
+extern size_t
+rjs_big_int_hash_key (RJS_Runtime *rt, RJS_Value *v);
+
 /**
  * Check if the big integer is zero.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_big_int_gmp_opt.c b/src/lib/rjs_big_int_gmp_opt.c
index 5ad4b06..2aa1254 100644
--- a/src/lib/rjs_big_int_gmp_opt.c
+++ b/src/lib/rjs_big_int_gmp_opt.c
@@ -446,6 +446,27 @@ rjs_big_int_same_value (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     return (r == 0);
 }
 
+/**
+ * Get the hash key of the big integer.
+ * \param rt The current runtime.
+ * \param v The big integer value.
+ * \return The hash key, equal values have equal keys.
+ */
+size_t
+rjs_big_int_hash_key (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_BigInt *bi = rjs_value_get_big_int(rt, v);
+    size_t      r  = mpz_sgn(&bi->mpz);
+    size_t      i, size;
+
+    size = mpz_size(&bi->mpz);
+
+    for (i = 0; i < size; i ++)
+        r = r * 19 + mpz_getlimbn(&bi->mpz, i);
+
+    return r;
+}
+
 /**
  * Check if the big integer is zero.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index eafb358..7d74d5e 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -832,6 +832,27 @@ rjs_big_int_same_value (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     return RJS_TRUE;
 }
 
+/**
+ * Get the hash key of the big integer.
+ * \param rt The current runtime.
+ * \param v The big integer value.
+ * \return The hash key, equal values have equal keys.
+ */
+size_t
+rjs_big_int_hash_key (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_BI *bi = bi_get(rt, v);
+    size_t  r  = bi->size;
+    int     i, size;
+
+    size = bi_size(bi);
+
+    for (i = 0; i < size; i ++)
+        r = r * 19 + bi->n[i];
+
+    return r;
+}
+
 /**
  * Check if the big integer is zero.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_hash.c b/src/lib/rjs_hash.c
index 5d67913..82c46bd 100644
--- a/src/lib/rjs_hash.c
+++ b/src/lib/rjs_hash.c
@@ -291,6 +291,11 @@ hash_op_value_key (void *data, void *key)
     case RJS_VALUE_STRING:
         r = rjs_string_hash_key(rt, v);
         break;
+#if ENABLE_BIG_INT
+    case RJS_VALUE_BIG_INT:
+        r = rjs_big_int_hash_key(rt, v);
+        break;
+#endif /*ENABLE_BIG_INT*/
     default:
         r = RJS_PTR2SIZE(rjs_value_get_gc_thing(rt, v));
         break;
-- 
2.43.0


From 13fa2076161bcddab448ae7e771ab33f292e2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 053/127] fix: Map and Set store +0 for -0, check their
 iterators' brand and close iterators only where specified; iterators may
 outlive them

---
 src/lib/rjs_hash_object_inc.c | 29 +++++++++++++++++++++++------
 src/lib/rjs_map_object_inc.c  |  8 +++++++-
 src/lib/rjs_set_object_inc.c  |  8 +++++++-
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index ede08b0..427f770 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -117,11 +117,17 @@ static void
 hash_op_gc_free (RJS_Runtime *rt, RJS_HashObject *ho, size_t esize)
 {
     RJS_SetEntry *se, *nse;
+    RJS_HashIter *hi, *nhi;
 
     rjs_list_foreach_safe_c(&ho->list, se, nse, RJS_SetEntry, ln) {
         rjs_free(rt, se, esize);
     }
 
+    /*The iterators may be freed after the hash table.*/
+    rjs_list_foreach_safe_c(&ho->iters, hi, nhi, RJS_HashIter, ln) {
+        rjs_list_init(&hi->ln);
+    }
+
     rjs_hash_deinit(&ho->hash, &rjs_hash_value_ops_0, rt);
     rjs_object_deinit(rt, &ho->object);
 
@@ -200,13 +206,13 @@ set_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if ((r = rjs_call(rt, adder, rv, iv, 1, res)) == RJS_ERR)
             goto iter_end;
@@ -270,13 +276,13 @@ map_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!rjs_value_is_object(rt, iv)) {
             r = rjs_throw_type_error(rt, _("the result is not an object"));
@@ -323,7 +329,11 @@ hash_add (RJS_Runtime *rt, RJS_Value *hashv, RJS_Value *k, size_t esize)
 
         se = rjs_alloc_assert_0(rt, esize);
 
-        rjs_value_copy(rt, &se->key, k);
+        /*-0 is stored as +0.*/
+        if (rjs_value_is_number(rt, k) && (rjs_value_get_number(rt, k) == 0))
+            rjs_value_set_number(rt, &se->key, 0);
+        else
+            rjs_value_copy(rt, &se->key, k);
 
         rjs_hash_insert(&ho->hash, &se->key, &se->he, phe, &rjs_hash_value_ops_0, rt);
         rjs_list_append(&ho->list, &se->ln);
@@ -470,7 +480,8 @@ hash_iter_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *hashv,
 }
 
 /*Hash iterator next method.*/
-static RJS_NF(hash_iter_next)
+static RJS_Result
+hash_iter_next (RJS_Runtime *rt, RJS_Value *thiz, RJS_GcThingType type, RJS_Value *rv)
 {
     size_t          top = rjs_value_stack_save(rt);
     RJS_Value      *v   = rjs_value_stack_push(rt);
@@ -485,6 +496,12 @@ static RJS_NF(hash_iter_next)
     }
 
     hi = (RJS_HashIter*)rjs_value_get_object(rt, thiz);
+
+    if (rjs_value_get_gc_thing_type(rt, &hi->hash) != type) {
+        r = rjs_throw_type_error(rt, _("the value is not a set/map iterator"));
+        goto end;
+    }
+
     ho = (RJS_HashObject*)rjs_value_get_object(rt, &hi->hash);
 
     if (hi->curr == &ho->list) {
diff --git a/src/lib/rjs_map_object_inc.c b/src/lib/rjs_map_object_inc.c
index ab807a6..37e4266 100644
--- a/src/lib/rjs_map_object_inc.c
+++ b/src/lib/rjs_map_object_inc.c
@@ -405,12 +405,18 @@ map_iterator_prototype_field_descs[] = {
     {NULL}
 };
 
+/*%MapIteratorPrototype%.next*/
+static RJS_NF(MapIteratorPrototype_next)
+{
+    return hash_iter_next(rt, thiz, RJS_GC_THING_MAP, rv);
+}
+
 static const RJS_BuiltinFuncDesc
 map_iterator_prototype_function_descs[] = {
     {
         "next",
         0,
-        hash_iter_next
+        MapIteratorPrototype_next
     },
     {NULL}
 };
diff --git a/src/lib/rjs_set_object_inc.c b/src/lib/rjs_set_object_inc.c
index 4465d61..4d17dcb 100644
--- a/src/lib/rjs_set_object_inc.c
+++ b/src/lib/rjs_set_object_inc.c
@@ -359,12 +359,18 @@ set_iterator_prototype_field_descs[] = {
     {NULL}
 };
 
+/*%SetIteratorPrototype%.next*/
+static RJS_NF(SetIteratorPrototype_next)
+{
+    return hash_iter_next(rt, thiz, RJS_GC_THING_SET, rv);
+}
+
 static const RJS_BuiltinFuncDesc
 set_iterator_prototype_function_descs[] = {
     {
         "next",
         0,
-        hash_iter_next
+        SetIteratorPrototype_next
     },
     {NULL}
 };
-- 
2.43.0


From 11b537a662d75b0c37c2d588ec18f212f1e4349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 054/127] fix: Object.defineProperties collects all descriptors
 before it defines any, and reports errors of getOwnProperty

---
 src/lib/rjs_object_object_inc.c | 38 ++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index 8022683..d6de8e8 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -97,13 +97,13 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
     RJS_Value           *keys   = rjs_value_stack_push(rt);
     RJS_Value           *desco  = rjs_value_stack_push(rt);
     RJS_PropertyKeyList *pkl;
-    RJS_PropertyDesc     pd, npd;
+    RJS_PropertyDesc     pd;
+    RJS_PropertyDesc    *descs = NULL;
     RJS_PropertyName     pn;
-    size_t               i;
+    size_t               i, num = 0, cap = 0;
     RJS_Result           r;
 
     rjs_property_desc_init(rt, &pd);
-    rjs_property_desc_init(rt, &npd);
 
     if ((r = rjs_to_object(rt, props, propso)) == RJS_ERR)
         goto end;
@@ -112,17 +112,29 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
         goto end;
 
     pkl = rjs_value_get_gc_thing(rt, keys);
-    for (i = 0; i < pkl->keys.item_num; i ++) {
+    cap = pkl->keys.item_num;
+
+    if (cap)
+        RJS_NEW_N(rt, descs, cap);
+
+    /*Collect all the descriptors before any property is defined.*/
+    for (i = 0; i < cap; i ++) {
         RJS_Value *key = &pkl->keys.items[i];
 
         rjs_property_name_init(rt, &pn, key);
 
         r = rjs_object_get_own_property(rt, propso, &pn, &pd);
-        if ((r = RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
+        if ((r == RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
             if ((r = rjs_get(rt, propso, &pn, desco)) == RJS_OK) {
-                r = rjs_to_property_descriptor(rt, desco, &npd);
+                rjs_property_desc_init(rt, &descs[num]);
+
+                r = rjs_to_property_descriptor(rt, desco, &descs[num]);
                 if (r == RJS_OK) {
-                    r = rjs_define_property_or_throw(rt, o, &pn, &npd);
+                    /*Keep the names of the collected descriptors only.*/
+                    if (num != i)
+                        rjs_value_copy(rt, &pkl->keys.items[num], key);
+
+                    num ++;
                 }
             }
         }
@@ -133,10 +145,20 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
             goto end;
     }
 
+    for (i = 0; i < num; i ++) {
+        rjs_property_name_init(rt, &pn, &pkl->keys.items[i]);
+        r = rjs_define_property_or_throw(rt, o, &pn, &descs[i]);
+        rjs_property_name_deinit(rt, &pn);
+
+        if (r == RJS_ERR)
+            goto end;
+    }
+
     r = RJS_OK;
 end:
+    if (descs)
+        RJS_DEL_N(rt, descs, cap);
     rjs_property_desc_deinit(rt, &pd);
-    rjs_property_desc_deinit(rt, &npd);
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From f425d0655121167d825611dd7f85166320b53d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 055/127] fix: for-in visits a key once whatever the
 representation of its string

---
 src/lib/rjs_for_in_iterator.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index c1fa7cc..4db85c2 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -32,9 +32,7 @@ hash_op_string_prop_key (void *data, void *key)
     RJS_Runtime *rt = data;
     RJS_Value *v     = key;
 
-    if (rjs_value_is_index_string(rt, v))
-        return rjs_value_get_index_string(rt, v);
-
+    /*Index strings have the same key as other strings with the same characters.*/
     return rjs_string_hash_key(rt, v);
 }
 
-- 
2.43.0


From 9bc9b0ba19b583a17957f37a92d20358a7185c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 056/127] fix: errors of [[IsExtensible]] propagate,
 Function.prototype.toString runs no proxy trap

---
 src/lib/rjs_function_object_inc.c |  5 ++++-
 src/lib/rjs_operation.c           |  4 +++-
 src/lib/rjs_proxy_object_opt.c    | 29 +++++++++++++++++++++++------
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_function_object_inc.c b/src/lib/rjs_function_object_inc.c
index 168ce0f..54cd549 100644
--- a/src/lib/rjs_function_object_inc.c
+++ b/src/lib/rjs_function_object_inc.c
@@ -241,7 +241,10 @@ static RJS_NF(Function_prototype_toString)
 
     rjs_uchar_buffer_append_uchar(rt, &ucb, '(');
 
-    if ((r = rjs_length_of_array_like(rt, thiz, &len)) == RJS_ERR)
+    /*Only read the length of an original function, a proxy's traps must not be invoked.*/
+    if (gtt == RJS_GC_THING_PROXY_OBJECT)
+        len = 0;
+    else if ((r = rjs_length_of_array_like(rt, thiz, &len)) == RJS_ERR)
         goto end;
 
     for (i = 0; i < (int)len; i ++) {
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index e7a813d..f8ff92f 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1019,7 +1019,9 @@ rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel leve
 
     rjs_property_desc_init(rt, &pd);
 
-    if (rjs_object_is_extensible(rt, o)) {
+    if ((r = rjs_object_is_extensible(rt, o)) == RJS_ERR)
+        goto end;
+    if (r) {
         r = RJS_FALSE;
         goto end;
     }
diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index f08b8c3..32502df 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -84,7 +84,9 @@ proxy_object_op_get_prototype_of (RJS_Runtime *rt, RJS_Value *o, RJS_Value *prot
         goto end;
     }
 
-    if (rjs_object_is_extensible(rt, target)) {
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+    if (r) {
         r = RJS_OK;
         goto end;
     }
@@ -192,7 +194,10 @@ proxy_object_op_is_extensible (RJS_Runtime *rt, RJS_Value *o)
         goto end;
 
     b1 = rjs_to_boolean(rt, tmp);
-    b2 = rjs_object_is_extensible(rt, target);
+
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+    b2 = r;
 
     if (b1 != b2) {
         r = rjs_throw_type_error(rt, _("proxy result mismatch"));
@@ -505,8 +510,14 @@ proxy_object_op_has_property (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *p
         if ((r = rjs_object_get_own_property(rt, target, pn, &target_pd)) == RJS_ERR)
             goto end1;
         if (r) {
-            if (!(target_pd.flags & RJS_PROP_FL_CONFIGURABLE)
-                    || !rjs_object_is_extensible(rt, target)) {
+            if (!(target_pd.flags & RJS_PROP_FL_CONFIGURABLE)) {
+                r = rjs_throw_type_error(rt, _("proxy result mismatch"));
+                goto end1;
+            }
+
+            if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+                goto end1;
+            if (!r) {
                 r = rjs_throw_type_error(rt, _("proxy result mismatch"));
                 goto end1;
             }
@@ -726,8 +737,14 @@ proxy_object_op_delete (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn)
         goto end;
     }
 
-    if (!(tpd->flags & RJS_PROP_FL_CONFIGURABLE)
-            || !rjs_object_is_extensible(rt, target)) {
+    if (!(tpd->flags & RJS_PROP_FL_CONFIGURABLE)) {
+        r = rjs_throw_type_error(rt, _("proxy result mismatch"));
+        goto end;
+    }
+
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+    if (!r) {
         r = rjs_throw_type_error(rt, _("proxy result mismatch"));
         goto end;
     }
-- 
2.43.0


From dfa271e751fe54b56bdaeba216bbf217e2227b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 057/127] fix: the ownKeys trap check keeps its keys reachable
 by GC

---
 src/lib/rjs_proxy_object_opt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index 32502df..36f75b8 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -907,6 +907,9 @@ proxy_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Value *key
         if (r == RJS_ERR)
             goto end;
 
+        /*Normalize the key in the list, which is scanned by GC.*/
+        get_prop_key(rt, k);
+
         if (r && !(pd.flags & RJS_PROP_FL_CONFIGURABLE))
             rjs_vector_append(&ncfg_keys, *k, rt);
         else
-- 
2.43.0


From 474b355eecb8634c903f5f9361687aad8a9e25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 058/127] fix: freezing ignores a key whose property has gone

---
 src/lib/rjs_operation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index f8ff92f..0e1d552 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -992,6 +992,8 @@ rjs_set_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel level
                 goto end;
         }
     }
+
+    r = RJS_OK;
 end:
     rjs_property_desc_deinit(rt, &pd);
     rjs_value_stack_restore(rt, top);
-- 
2.43.0


From d238e0c713463be86043e568d891f3c7bed6d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 059/127] fix: Date: negative time components, far years,
 24:00, day 0, expanded years of toISOString, setUTCMilliseconds, zone names

---
 src/lib/rjs_date_object_inc.c | 48 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 7c1fc18..666c312 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -247,10 +247,7 @@ hour_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_HOUR) % RJS_HOURS_PER_DAY;
-    if (v < 0)
-        v += RJS_HOURS_PER_DAY;
-
+    v = time_within_day(t) / RJS_MS_PER_HOUR;
     return v;
 }
 
@@ -260,10 +257,7 @@ min_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
-    if (v < 0)
-        v += RJS_MINUTES_PER_HOUR;
-
+    v = (time_within_day(t) / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
     return v;
 }
 
@@ -273,10 +267,7 @@ sec_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
-    if (v < 0)
-        v += RJS_SECONDS_PER_MINUTE;
-
+    v = (time_within_day(t) / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
     return v;
 }
 
@@ -321,9 +312,12 @@ local_time (RJS_Runtime *rt, int64_t t)
 }
 
 /*Get the UTC time.*/
-static int64_t
-utc (RJS_Runtime *rt, int64_t t)
+static RJS_Number
+utc (RJS_Runtime *rt, RJS_Number t)
 {
+    if (isnan(t))
+        return t;
+
     return t - local_tza(rt, t, RJS_FALSE);
 }
 
@@ -469,17 +463,19 @@ make_day (RJS_Runtime *rt, RJS_Number y, RJS_Number m, RJS_Number d)
         rjs_to_integer_or_infinity(rt, v, &d);
 
         y += floor(m / 12);
-        if (isinf(y)) {
+
+        /*The year is far outside the range of time values.*/
+        if (RJS_ABS(y) > 1e8) {
             dv = NAN;
             goto end;
         }
 
-        mon = ((int64_t)m) % 12;
+        mon = fmod(m, 12);
         if (mon < 0)
             mon += 12;
 
         t    = time_from_year(y);
-        leap = in_leap_year(t);
+        leap = is_leap_year(y);
 
         yd = month_year_days[mon];
 
@@ -860,7 +856,7 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
                 if ((off_min = parse_date_number(rt, &input, 2)) < 0)
                     goto end;
 
-                c = rjs_input_get_uc(rt, &input);
+                c = eatup_space(rt, &input);
             }
 
             if (c == '(') {
@@ -931,7 +927,7 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
     if (c != RJS_INPUT_END)
         goto end;
 
-    if ((mon < 1) || (mon > 12))
+    if ((mon < 1) || (mon > 12) || (day < 1))
         goto end;
     if (mon == 2) {
         int leap = is_leap_year(y);
@@ -942,8 +938,11 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
         if (day > month_days[mon - 1])
             goto end;
     }
-    if ((hour > 23) || (min > 59) || (sec > 59))
-        goto end;
+    if ((hour > 23) || (min > 59) || (sec > 59)) {
+        /*24:00:00 is the end of the day.*/
+        if ((hour != 24) || min || sec || ms)
+            goto end;
+    }
     if ((off_hour > 23) || (off_min > 59))
         goto end;
 
@@ -1990,7 +1989,7 @@ static RJS_NF(Date_prototype_setUTCMilliseconds)
         return RJS_OK;
     }
 
-    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), ms_from_time(t), sec_from_time(t), milli));
+    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), min_from_time(t), sec_from_time(t), milli));
     u = time_clip(rt, u);
 
     d = (RJS_Date*)rjs_value_get_object(rt, thiz);
@@ -2180,7 +2179,10 @@ static RJS_NF(Date_prototype_toISOString)
         sec = sec_from_time(t);
         ms  = ms_from_time(t);
 
-        snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
+        /*Years outside 0 to 9999 have a sign and 6 digits.*/
+        snprintf(buf, sizeof(buf), ((y < 0) || (y > 9999))
+                ? "%+07d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+                : "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
                 y, m + 1, d, h, min, sec, ms);
 
         r = rjs_string_from_chars(rt, rv, buf, -1);
-- 
2.43.0


From 02aa6ba8e53671cdd85c4dce925979e8a8b060b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 060/127] fix: generator objects own no length, generator
 function constructors inherit Function, AsyncFunction.prototype.constructor
 is read only, OrdinaryHasInstance of a non-callable is false

---
 src/lib/rjs_builtin_func_object.c |  1 +
 src/lib/rjs_generator_opt.c       |  6 +++---
 src/lib/rjs_global_object.c       |  4 ++--
 src/lib/rjs_operation.c           |  5 +++++
 src/lib/rjs_script_func_object.c  | 12 +++++++-----
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lib/rjs_builtin_func_object.c b/src/lib/rjs_builtin_func_object.c
index 14be103..8d800d3 100644
--- a/src/lib/rjs_builtin_func_object.c
+++ b/src/lib/rjs_builtin_func_object.c
@@ -473,6 +473,7 @@ object_desc_load (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *o, RJS_Value *na
             }
 
             if (!strcmp(bod->native, "GeneratorFunction")
+                    || !strcmp(bod->native, "AsyncFunction")
                     || !strcmp(bod->native, "AsyncGeneratorFunction"))
                 cflags &= ~RJS_PROP_FL_WRITABLE;
         }
diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 17d9a48..2b887a9 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -1131,6 +1131,9 @@ rjs_generator_function_new (RJS_Runtime *rt, RJS_Value *f, RJS_Value *def_proto,
     rjs_script_func_object_init(rt, f, sfo, def_proto, script, sf, env, priv_env,
             &generator_function_ops);
 
+    /*Set the length.*/
+    rjs_set_function_length(rt, f, sf->param_len);
+
     /*Set the function's name.*/
     if (sf->name_idx != RJS_INVALID_VALUE_INDEX) {
         RJS_Value *name = &script->value_table[sf->name_idx];
@@ -1138,9 +1141,6 @@ rjs_generator_function_new (RJS_Runtime *rt, RJS_Value *f, RJS_Value *def_proto,
         rjs_set_function_name(rt, f, name, NULL);
     }
 
-    /*Set the length.*/
-    rjs_set_function_length(rt, f, sf->param_len);
-
     /*Set "prototype".*/
     rjs_ordinary_object_create(rt, proto_proto, proto);
 
diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index 4c043f2..cdb9e7b 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -824,7 +824,7 @@ global_object_descs[] = {
 #if ENABLE_GENERATOR
     {
         "%GeneratorFunction%",
-        NULL,
+        "Function",
         &generator_function_constructor_desc,
         &generator_function_prototype_desc,
         NULL,
@@ -872,7 +872,7 @@ global_object_descs[] = {
 #if ENABLE_GENERATOR && ENABLE_ASYNC
     {
         "%AsyncGeneratorFunction%",
-        NULL,
+        "Function",
         &async_generator_function_constructor_desc,
         &async_generator_function_prototype_desc,
         NULL,
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 0e1d552..1dfe3e5 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1239,6 +1239,11 @@ rjs_ordinary_has_instance (RJS_Runtime *rt, RJS_Value *c, RJS_Value *o)
     RJS_Value *t     = rjs_value_stack_push(rt);
     RJS_Result r;
 
+    if (!rjs_is_callable(rt, c)) {
+        r = RJS_FALSE;
+        goto end;
+    }
+
 #if ENABLE_BOUND_FUNC
     if (rjs_value_get_gc_thing_type(rt, c) == RJS_GC_THING_BOUND_FUNC) {
         RJS_BoundFuncObject *bfo;
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 5180168..ca39762 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -381,13 +381,15 @@ rjs_script_func_object_init (RJS_Runtime *rt, RJS_Value *v, RJS_ScriptFuncObject
 
     rjs_base_func_object_init(rt, v, &sfo->bfo, proto, ops, script);
 
-    rjs_set_function_length(rt, v, sf->param_len);
-
-    if ((sf->name_idx != RJS_INVALID_VALUE_INDEX)
 #if ENABLE_GENERATOR
-            && !(sf->flags & RJS_FUNC_FL_GENERATOR)
+    /*The generator function sets its own length and name, the generator object has no one.*/
+    if (sf->flags & RJS_FUNC_FL_GENERATOR)
+        return;
 #endif /*ENABLE_GENERATOR*/
-            ) {
+
+    rjs_set_function_length(rt, v, sf->param_len);
+
+    if (sf->name_idx != RJS_INVALID_VALUE_INDEX) {
         RJS_Value *n = &script->value_table[sf->name_idx];
 
         rjs_set_function_name(rt, v, n, NULL);
-- 
2.43.0


From 99960801957a158ab61ad7307d8bc462297acc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 061/127] fix: GC scans a global environment that has no object
 record yet

---
 src/lib/rjs_global_env.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_global_env.c b/src/lib/rjs_global_env.c
index 19053c1..262b06c 100644
--- a/src/lib/rjs_global_env.c
+++ b/src/lib/rjs_global_env.c
@@ -34,7 +34,10 @@ global_env_op_gc_scan (RJS_Runtime *rt, void *ptr)
     RJS_HashEntry *he;
 
     rjs_gc_scan_value(rt, &ge->global_this);
-    rjs_gc_mark(rt, ge->object_rec);
+
+    /*The record is created after the environment has been added to GC.*/
+    if (ge->object_rec)
+        rjs_gc_mark(rt, ge->object_rec);
 
     rjs_hash_foreach(&ge->var_name_hash, i, he) {
         rjs_gc_mark(rt, he->key);
-- 
2.43.0


From 1f7ac85b9cc9abab1e00d66af5b42817c323a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 062/127] fix: a tail call of a function that suspends
 (generator next) returns to its caller

---
 src/lib/rjs_native_stack.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 33d250c..20c1414 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1144,6 +1144,7 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
     RJS_State   *s     = rjs_state_top(rt);
     RJS_Context *ctxt  = rjs_context_running(rt);
     RJS_Realm   *realm = rjs_realm_current(rt);
+    RJS_Bool     tco   = RJS_FALSE;
     RJS_Result   r;
 
     assert(s->type == RJS_STATE_CALL);
@@ -1186,7 +1187,8 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
                 return r;
         }
 
-        r = RJS_FALSE;
+        tco = RJS_TRUE;
+        r   = RJS_FALSE;
 #if ENABLE_EVAL
     } else if ((flags & RJS_CALL_FL_EVAL)
             && rjs_same_value(rt, s->s.s_call.func, rjs_o_eval(realm))) {
@@ -1200,6 +1202,10 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
         rjs_state_pop(rt);
     }
 
+    /*RJS_FALSE is kept for the tail call optimization, a suspended callee has returned.*/
+    if (!tco && (r == RJS_FALSE))
+        r = RJS_OK;
+
     return r;
 }
 
-- 
2.43.0


From 01924cb8dadaab68a362b3a65b61b65c0c568170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 063/127] fix: the GC keeps the values of a weak map's living
 keys

---
 src/lib/include/rjs_weak_ref.h    |  9 +++++++++
 src/lib/rjs_gc.c                  | 12 ++++++++++++
 src/lib/rjs_weak_map_object_inc.c | 26 ++++++++++++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/src/lib/include/rjs_weak_ref.h b/src/lib/include/rjs_weak_ref.h
index 1e55019..5c0e01e 100644
--- a/src/lib/include/rjs_weak_ref.h
+++ b/src/lib/include/rjs_weak_ref.h
@@ -43,6 +43,15 @@ struct RJS_WeakRef_s {
     RJS_WeakRefOnFinalFunc on_final; /**< On final function.*/
 };
 
+#if ENABLE_WEAK_MAP
+/**
+ * Mark the weak maps' values whose maps and keys are marked.
+ * \param rt The current runtime.
+ */
+RJS_INTERNAL void
+rjs_gc_mark_weak_map_values (RJS_Runtime *rt);
+#endif /*ENABLE_WEAK_MAP*/
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_gc.c b/src/lib/rjs_gc.c
index bf61cb4..ed3bae5 100644
--- a/src/lib/rjs_gc.c
+++ b/src/lib/rjs_gc.c
@@ -176,6 +176,18 @@ gc_run (RJS_Runtime *rt)
     /*Scan the used things.*/
     gc_scan_things(rt);
 
+#if ENABLE_WEAK_MAP
+    /*Scan the values of the weak maps' living keys, they may make other keys alive.*/
+    while (1) {
+        rjs_gc_mark_weak_map_values(rt);
+
+        if (!rt->rb.gc_mark_stack.item_num && !rt->rb.gc_mark_stack_full)
+            break;
+
+        gc_scan_things(rt);
+    }
+#endif /*ENABLE_WEAK_MAP*/
+
 #if ENABLE_WEAK_REF
     /*Solve the weak references.*/
     rjs_solve_weak_refs(rt);
diff --git a/src/lib/rjs_weak_map_object_inc.c b/src/lib/rjs_weak_map_object_inc.c
index 41021b2..71129f8 100644
--- a/src/lib/rjs_weak_map_object_inc.c
+++ b/src/lib/rjs_weak_map_object_inc.c
@@ -158,6 +158,32 @@ weak_map_on_final (RJS_Runtime *rt, RJS_WeakRef *wr)
     RJS_DEL(rt, wme);
 }
 
+/*Mark the weak maps' values whose maps and keys are marked.*/
+void
+rjs_gc_mark_weak_map_values (RJS_Runtime *rt)
+{
+    RJS_WeakRef *wr;
+
+    rjs_list_foreach_c(&rt->weak_ref_list, wr, RJS_WeakRef, ln) {
+        RJS_GcThing      *base_gt, *ref_gt;
+        RJS_WeakMapEntry *wme;
+
+        if (wr->on_final != weak_map_on_final)
+            continue;
+
+        base_gt = rjs_value_get_gc_thing(rt, &wr->base);
+        ref_gt  = rjs_value_get_gc_thing(rt, &wr->ref);
+
+        if (!(base_gt->next_flags & RJS_GC_THING_FL_MARKED)
+                || !(ref_gt->next_flags & RJS_GC_THING_FL_MARKED))
+            continue;
+
+        wme = (RJS_WeakMapEntry*)hash_get(rt, &wr->base, &wr->ref);
+        if (wme)
+            rjs_gc_scan_value(rt, &wme->me.value);
+    }
+}
+
 /*WeakMap.prototype.set*/
 static RJS_NF(WeakMap_prototype_set)
 {
-- 
2.43.0


From 3168f8248ee4a853b284596a375bf9d298b708f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 064/127] fix: FinalizationRegistry keeps every registration of
 a token, unregisters until the cleanup callback

---
 src/lib/include/rjs_finalization_registry.h |   2 -
 src/lib/rjs_finalization_registry_opt.c     | 115 +++++++++-----------
 2 files changed, 49 insertions(+), 68 deletions(-)

diff --git a/src/lib/include/rjs_finalization_registry.h b/src/lib/include/rjs_finalization_registry.h
index 6ce30c0..5919d43 100644
--- a/src/lib/include/rjs_finalization_registry.h
+++ b/src/lib/include/rjs_finalization_registry.h
@@ -38,13 +38,11 @@ extern "C" {
 /**Finalization registry.*/
 typedef struct {
     RJS_Object  object;  /**< The base object data.*/
-    RJS_Hash    cb_hash; /**< The callback hash table.*/
     RJS_Value   func;    /**< The callback function.*/
 } RJS_FinalizationRegistry;
 
 /**Finalization callback.*/
 typedef struct {
-    RJS_HashEntry he;       /**< Hash table entry.*/
     RJS_List      ln;       /**< List node data.*/
     RJS_Value     registry; /**< The registry.*/
     RJS_Value     target;   /**< The target value.*/
diff --git a/src/lib/rjs_finalization_registry_opt.c b/src/lib/rjs_finalization_registry_opt.c
index 3dffa7b..c69a865 100644
--- a/src/lib/rjs_finalization_registry_opt.c
+++ b/src/lib/rjs_finalization_registry_opt.c
@@ -69,17 +69,36 @@ rjs_gc_scan_finalization_registry (RJS_Runtime *rt)
 
 /**Finalization.*/
 typedef struct {
-    RJS_Value func; /**< The function.*/
-    RJS_Value held; /**< The held parameter.*/
+    RJS_Value registry; /**< The registry.*/
 } RJS_Finalization;
 
 /**Finalization job function.*/
 static void
 finalization_func (RJS_Runtime *rt, void *data)
 {
-    RJS_Finalization *f = data;
+    RJS_Finalization         *f    = data;
+    size_t                    top  = rjs_value_stack_save(rt);
+    RJS_Value                *held = rjs_value_stack_push(rt);
+    RJS_FinalizationRegistry *fr;
+    RJS_FinalizationCallback *fcb;
+
+    /*The callback may have been unregistered after its target has been collected.*/
+    rjs_list_foreach_c(&rt->final_cb_list, fcb, RJS_FinalizationCallback, ln) {
+        if (rjs_value_is_undefined(rt, &fcb->target)
+                && rjs_same_value(rt, &fcb->registry, &f->registry)) {
+            fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, &f->registry);
+
+            rjs_value_copy(rt, held, &fcb->held);
+
+            rjs_list_remove(&fcb->ln);
+            RJS_DEL(rt, fcb);
+
+            rjs_call(rt, &fr->func, rjs_v_undefined(rt), held, 1, NULL);
+            break;
+        }
+    }
 
-    rjs_call(rt, &f->func, rjs_v_undefined(rt), &f->held, 1, NULL);
+    rjs_value_stack_restore(rt, top);
 }
 
 /**Finalization scan function.*/
@@ -88,8 +107,7 @@ finalization_scan (RJS_Runtime *rt, void *data)
 {
     RJS_Finalization *f = data;
 
-    rjs_gc_scan_value(rt, &f->func);
-    rjs_gc_scan_value(rt, &f->held);
+    rjs_gc_scan_value(rt, &f->registry);
 }
 
 /**Finalization free function.*/
@@ -113,37 +131,28 @@ rjs_solve_finalization_registry (RJS_Runtime *rt)
     rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
         RJS_GcThing *gt;
 
+        /*The target has been collected already.*/
+        if (rjs_value_is_undefined(rt, &fcb->target))
+            continue;
+
         gt = rjs_value_get_gc_thing(rt, &fcb->target);
 
         if (!(gt->next_flags & RJS_GC_THING_FL_MARKED)) {
-            RJS_FinalizationRegistry *fr;
-            RJS_Finalization         *f;
-            RJS_Realm                *realm = rjs_realm_current(rt);
+            RJS_Finalization *f;
+            RJS_Realm        *realm = rjs_realm_current(rt);
 
             /*Enqueue the finalization function.*/
-            fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, &fcb->registry);
-
             RJS_NEW(rt, f);
 
-            rjs_value_copy(rt, &f->func, &fr->func);
-            rjs_value_copy(rt, &f->held, &fcb->held);
+            rjs_value_copy(rt, &f->registry, &fcb->registry);
 
             rjs_job_enqueue(rt, finalization_func, realm, finalization_scan, finalization_free, f);
 
-            /*Remove the finalization entry.*/
-            if (!rjs_value_is_undefined(rt, &fcb->token)) {
-                RJS_HashEntry *he, **phe;
-                RJS_Result     r;
-
-                r = rjs_hash_lookup(&fr->cb_hash, &fcb->token, &he, &phe, &rjs_hash_value_ops, rt);
-                if (r) {
-                    rjs_hash_remove(&fr->cb_hash, phe, rt);
-                }
-            }
+            /*The target, and the token if it is the target, has gone.*/
+            if (rjs_same_value(rt, &fcb->target, &fcb->token))
+                rjs_value_set_undefined(rt, &fcb->token);
 
-            rjs_list_remove(&fcb->ln);
-
-            RJS_DEL(rt, fcb);
+            rjs_value_set_undefined(rt, &fcb->target);
         }
     }
 }
@@ -167,8 +176,6 @@ finalization_registry_op_gc_free (RJS_Runtime *rt, void *ptr)
 
     rjs_object_deinit(rt, &fr->object);
 
-    rjs_hash_deinit(&fr->cb_hash, &rjs_hash_value_ops, rt);
-
     RJS_DEL(rt, fr);
 }
 
@@ -207,12 +214,10 @@ rjs_finalization_registry_new (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *
     RJS_NEW(rt, fr);
 
     rjs_value_copy(rt, &fr->func, func);
-    rjs_hash_init(&fr->cb_hash);
 
     r = rjs_ordinary_init_from_constructor(rt, &fr->object, nt,
             RJS_O_FinalizationRegistry_prototype, &finalization_registry_ops, registry);
     if (r == RJS_ERR) {
-        rjs_hash_deinit(&fr->cb_hash, &rjs_hash_value_ops, rt);
         RJS_DEL(rt, fr);
         return r;
     }
@@ -234,9 +239,7 @@ RJS_Result
 rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *target,
         RJS_Value *held, RJS_Value *token)
 {
-    RJS_FinalizationRegistry *fr;
-    RJS_HashEntry            *he, **phe = NULL;
-    RJS_FinalizationCallback *fcb = NULL;
+    RJS_FinalizationCallback *fcb;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -252,27 +255,9 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
             return rjs_throw_type_error(rt, _("unregister token cannot be held weakly"));
     }
 
-    fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
-
-    if (!rjs_value_is_undefined(rt, token)) {
-        RJS_Result r;
-
-        r = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
-
-        if (r)
-            fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
-    }
-
-    if (!fcb) {
-        RJS_NEW(rt, fcb);
-
-        rjs_value_copy(rt, &fcb->token, token);
-
-        rjs_list_append(&rt->final_cb_list, &fcb->ln);
+    RJS_NEW(rt, fcb);
 
-        if (!rjs_value_is_undefined(rt, token))
-            rjs_hash_insert(&fr->cb_hash, &fcb->token, &fcb->he, phe, &rjs_hash_value_ops, rt);
-    }
+    rjs_list_append(&rt->final_cb_list, &fcb->ln);
 
     rjs_value_copy(rt, &fcb->registry, registry);
     rjs_value_copy(rt, &fcb->target, target);
@@ -293,10 +278,8 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
 RJS_Result
 rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *token)
 {
-    RJS_FinalizationRegistry *fr;
-    RJS_FinalizationCallback *fcb;
-    RJS_Result                r;
-    RJS_HashEntry            *he, **phe;
+    RJS_FinalizationCallback *fcb, *nfcb;
+    RJS_Result                r = RJS_FALSE;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -304,16 +287,16 @@ rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *to
     if (!rjs_can_be_held_weakly(rt, token))
         return rjs_throw_type_error(rt, _("the unregister token cannot be held weakly"));
 
-    fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
-    r  = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
-    if (!r)
-        return RJS_FALSE;
+    rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
+        if (rjs_same_value(rt, &fcb->registry, registry)
+                && rjs_same_value(rt, &fcb->token, token)) {
+            rjs_list_remove(&fcb->ln);
 
-    fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
+            RJS_DEL(rt, fcb);
 
-    rjs_hash_remove(&fr->cb_hash, phe, rt);
-    rjs_list_remove(&fcb->ln);
+            r = RJS_TRUE;
+        }
+    }
 
-    RJS_DEL(rt, fcb);
-    return RJS_TRUE;
+    return r;
 }
-- 
2.43.0


From b4d0401f3af5ea349a7af06df91d0c7519582fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 065/127] fix: freeing a WeakRef frees its properties

---
 src/lib/rjs_weak_ref_object_inc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_weak_ref_object_inc.c b/src/lib/rjs_weak_ref_object_inc.c
index 7aba0e6..1695a1f 100644
--- a/src/lib/rjs_weak_ref_object_inc.c
+++ b/src/lib/rjs_weak_ref_object_inc.c
@@ -47,6 +47,8 @@ weak_ref_op_gc_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_WeakRefObject *wro = ptr;
 
+    rjs_object_deinit(rt, &wro->object);
+
     RJS_DEL(rt, wro);
 }
 
-- 
2.43.0


From 2686426818d8a2956859c943a9a935d6055121c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 066/127] fix: Atomics operations check the buffer again after
 converting their operands

---
 src/lib/rjs_atomics_object_inc.c | 209 +++++++++++++++++++++++++++----
 1 file changed, 188 insertions(+), 21 deletions(-)

diff --git a/src/lib/rjs_atomics_object_inc.c b/src/lib/rjs_atomics_object_inc.c
index ddb895d..3bd4731 100644
--- a/src/lib/rjs_atomics_object_inc.c
+++ b/src/lib/rjs_atomics_object_inc.c
@@ -104,6 +104,26 @@ validate_atomic_access (RJS_Runtime *rt, RJS_Value *ta, RJS_Value *req_idx, size
     return RJS_OK;
 }
 
+/*Get the element's pointer after the arguments are converted.*/
+static RJS_Result
+atomic_element_get (RJS_Runtime *rt, RJS_Value *ta, size_t off, uint8_t **pptr)
+{
+    RJS_IntIndexedObject *iio;
+    RJS_ArrayBuffer      *ab;
+
+    iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
+
+    /*The buffer may be detached by the conversions.*/
+    if (rjs_is_detached_buffer(rt, &iio->buffer))
+        return rjs_throw_type_error(rt, _("the array buffer is detached"));
+
+    ab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
+
+    *pptr = rjs_data_block_get_buffer(ab->data_block) + off;
+
+    return RJS_OK;
+}
+
 /*Atomics.add*/
 static RJS_NF(Atomics_add)
 {
@@ -116,7 +136,6 @@ static RJS_NF(Atomics_add)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -127,8 +146,6 @@ static RJS_NF(Atomics_add)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -138,6 +155,9 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_add(p, i);
@@ -152,6 +172,9 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_add(p, i);
@@ -166,6 +189,9 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_add(p, i);
@@ -180,6 +206,9 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_add(p, i);
@@ -194,6 +223,9 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_add(p, i);
@@ -208,6 +240,9 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_add(p, i);
@@ -226,6 +261,9 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_add(p, i);
@@ -243,6 +281,9 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_add(p, i);
@@ -273,7 +314,6 @@ static RJS_NF(Atomics_and)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -284,8 +324,6 @@ static RJS_NF(Atomics_and)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -295,6 +333,9 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_and(p, i);
@@ -309,6 +350,9 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_and(p, i);
@@ -323,6 +367,9 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_and(p, i);
@@ -337,6 +384,9 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_and(p, i);
@@ -351,6 +401,9 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_and(p, i);
@@ -365,6 +418,9 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_and(p, i);
@@ -383,6 +439,9 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_and(p, i);
@@ -400,6 +459,9 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_and(p, i);
@@ -431,7 +493,6 @@ static RJS_NF(Atomics_compareExchange)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -442,8 +503,6 @@ static RJS_NF(Atomics_compareExchange)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -455,6 +514,9 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_int8(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         atomic_compare_exchange_strong(p, (char*)&i, ri);
@@ -471,6 +533,9 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_int16(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
@@ -487,6 +552,9 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_int32(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
@@ -503,6 +571,9 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_uint8(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
@@ -519,6 +590,9 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_uint16(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
@@ -535,6 +609,9 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_uint32(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
@@ -556,6 +633,9 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_big_int_to_int64(rt, bi, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         atomic_compare_exchange_strong(p, (long long*)&i, ri);
@@ -576,6 +656,9 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_big_int_to_uint64(rt, bi, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         atomic_compare_exchange_strong(p, (unsigned long long*)&i, ri);
@@ -606,7 +689,6 @@ static RJS_NF(Atomics_exchange)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -617,8 +699,6 @@ static RJS_NF(Atomics_exchange)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -628,6 +708,9 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_exchange(p, i);
@@ -642,6 +725,9 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_exchange(p, i);
@@ -656,6 +742,9 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_exchange(p, i);
@@ -670,6 +759,9 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_exchange(p, i);
@@ -684,6 +776,9 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_exchange(p, i);
@@ -698,6 +793,9 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_exchange(p, i);
@@ -716,6 +814,9 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_exchange(p, i);
@@ -733,6 +834,9 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_exchange(p, i);
@@ -812,7 +916,6 @@ static RJS_NF(Atomics_or)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -823,8 +926,6 @@ static RJS_NF(Atomics_or)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -834,6 +935,9 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_or(p, i);
@@ -848,6 +952,9 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_or(p, i);
@@ -862,6 +969,9 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_or(p, i);
@@ -876,6 +986,9 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_or(p, i);
@@ -890,6 +1003,9 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_or(p, i);
@@ -904,6 +1020,9 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_or(p, i);
@@ -922,6 +1041,9 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_or(p, i);
@@ -939,6 +1061,9 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_or(p, i);
@@ -1012,7 +1137,6 @@ static RJS_NF(Atomics_sub)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -1023,8 +1147,6 @@ static RJS_NF(Atomics_sub)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -1034,6 +1156,9 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_sub(p, i);
@@ -1048,6 +1173,9 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_sub(p, i);
@@ -1062,6 +1190,9 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_sub(p, i);
@@ -1076,6 +1207,9 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_sub(p, i);
@@ -1090,6 +1224,9 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_sub(p, i);
@@ -1104,6 +1241,9 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_sub(p, i);
@@ -1122,6 +1262,9 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_sub(p, i);
@@ -1139,6 +1282,9 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_sub(p, i);
@@ -1330,7 +1476,6 @@ static RJS_NF(Atomics_xor)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -1341,8 +1486,6 @@ static RJS_NF(Atomics_xor)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -1352,6 +1495,9 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_xor(p, i);
@@ -1366,6 +1512,9 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_xor(p, i);
@@ -1380,6 +1529,9 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_xor(p, i);
@@ -1394,6 +1546,9 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_xor(p, i);
@@ -1408,6 +1563,9 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_xor(p, i);
@@ -1422,6 +1580,9 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_xor(p, i);
@@ -1440,6 +1601,9 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_xor(p, i);
@@ -1457,6 +1621,9 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_xor(p, i);
-- 
2.43.0


From 72db5e2111f55bf259dfc3458894004a97722673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 067/127] fix: Atomics.load, store and wait access the element
 with a single atomic access

---
 src/lib/rjs_atomics_object_inc.c | 101 ++++++++++++++++++++++++++++---
 1 file changed, 91 insertions(+), 10 deletions(-)

diff --git a/src/lib/rjs_atomics_object_inc.c b/src/lib/rjs_atomics_object_inc.c
index 3bd4731..68b1f39 100644
--- a/src/lib/rjs_atomics_object_inc.c
+++ b/src/lib/rjs_atomics_object_inc.c
@@ -124,6 +124,78 @@ atomic_element_get (RJS_Runtime *rt, RJS_Value *ta, size_t off, uint8_t **pptr)
     return RJS_OK;
 }
 
+/*Atomic load the raw data of the element.*/
+static void
+atomic_element_load (uint8_t *ptr, size_t esize, uint8_t *buf)
+{
+    switch (esize) {
+    case 1: {
+        uint8_t v = atomic_load((atomic_uchar*)ptr);
+
+        memcpy(buf, &v, sizeof(v));
+        break;
+    }
+    case 2: {
+        uint16_t v = atomic_load((atomic_ushort*)ptr);
+
+        memcpy(buf, &v, sizeof(v));
+        break;
+    }
+    case 4: {
+        uint32_t v = atomic_load((atomic_uint*)ptr);
+
+        memcpy(buf, &v, sizeof(v));
+        break;
+    }
+    case 8: {
+        uint64_t v = atomic_load((atomic_ullong*)ptr);
+
+        memcpy(buf, &v, sizeof(v));
+        break;
+    }
+    default:
+        assert(0);
+    }
+}
+
+/*Atomic store the raw data of the element.*/
+static void
+atomic_element_store (uint8_t *ptr, size_t esize, const uint8_t *buf)
+{
+    switch (esize) {
+    case 1: {
+        uint8_t v;
+
+        memcpy(&v, buf, sizeof(v));
+        atomic_store((atomic_uchar*)ptr, v);
+        break;
+    }
+    case 2: {
+        uint16_t v;
+
+        memcpy(&v, buf, sizeof(v));
+        atomic_store((atomic_ushort*)ptr, v);
+        break;
+    }
+    case 4: {
+        uint32_t v;
+
+        memcpy(&v, buf, sizeof(v));
+        atomic_store((atomic_uint*)ptr, v);
+        break;
+    }
+    case 8: {
+        uint64_t v;
+
+        memcpy(&v, buf, sizeof(v));
+        atomic_store((atomic_ullong*)ptr, v);
+        break;
+    }
+    default:
+        assert(0);
+    }
+}
+
 /*Atomics.add*/
 static RJS_NF(Atomics_add)
 {
@@ -884,6 +956,8 @@ static RJS_NF(Atomics_load)
     RJS_Value            *index   = rjs_argument_get(rt, args, argc, 1);
     size_t                idx_pos = 0;
     RJS_IntIndexedObject *iio;
+    uint8_t              *ptr;
+    uint8_t               buf[sizeof(uint64_t)];
     RJS_Result            r;
 
     if ((r = validate_integer_typed_array(rt, ta, RJS_FALSE)) == RJS_ERR)
@@ -892,14 +966,14 @@ static RJS_NF(Atomics_load)
     if ((r = validate_atomic_access(rt, ta, index, &idx_pos)) == RJS_ERR)
         goto end;
 
+    if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+        goto end;
+
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
 
-    if (rjs_is_detached_buffer(rt, &iio->buffer)) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
-        goto end;
-    }
+    atomic_element_load(ptr, rjs_typed_array_element_size(iio->type), buf);
 
-    r = rjs_get_value_from_buffer(rt, &iio->buffer, idx_pos, iio->type, rjs_is_little_endian(), rv);
+    r = rjs_get_value_from_raw(rt, buf, iio->type, rjs_is_little_endian(), rv);
 end:
     return r;
 }
@@ -1090,6 +1164,8 @@ static RJS_NF(Atomics_store)
     RJS_Value            *value   = rjs_argument_get(rt, args, argc, 2);
     size_t                idx_pos = 0;
     RJS_IntIndexedObject *iio;
+    uint8_t              *ptr;
+    uint8_t               buf[sizeof(uint64_t)];
     RJS_Result            r;
 
     if ((r = validate_integer_typed_array(rt, ta, RJS_FALSE)) == RJS_ERR)
@@ -1115,12 +1191,15 @@ static RJS_NF(Atomics_store)
         rjs_value_set_number(rt, rv, n);
     }
 
-    if (rjs_is_detached_buffer(rt, &iio->buffer)) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+    if ((r = rjs_set_value_in_raw(rt, buf, iio->type, rv, rjs_is_little_endian())) == RJS_ERR)
+        goto end;
+
+    if ((r = atomic_element_get(rt, ta, idx_pos, &ptr)) == RJS_ERR)
         goto end;
-    }
 
-    r = rjs_set_value_in_buffer(rt, &iio->buffer, idx_pos, iio->type, rv, rjs_is_little_endian());
+    atomic_element_store(ptr, rjs_typed_array_element_size(iio->type), buf);
+
+    r = RJS_OK;
 end:
     return r;
 }
@@ -1317,6 +1396,7 @@ static RJS_NF(Atomics_wait)
     RJS_IntIndexedObject *iio;
     RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
+    uint8_t               raw[sizeof(uint64_t)];
     size_t                idx_pos;
     RJS_WaiterList       *wl;
     RJS_Number            t;
@@ -1371,7 +1451,8 @@ static RJS_NF(Atomics_wait)
 
     rjs_array_buffer_lock(rt, buf);
 
-    rjs_get_value_from_raw(rt, ptr, iio->type, rjs_is_little_endian(), w);
+    atomic_element_load(ptr, rjs_typed_array_element_size(iio->type), raw);
+    rjs_get_value_from_raw(rt, raw, iio->type, rjs_is_little_endian(), w);
 
     if (rjs_same_value(rt, v, w)) {
         wl = rjs_get_waiter_list(rt, ab->data_block, idx_pos);
-- 
2.43.0


From c675d72fc742a6523cb9ef94498b76bd7d6996ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 068/127] fix: Atomics.wait reports a notified waiter and
 ignores spurious wakeups

---
 src/lib/include/rjs_data_block.h |  5 +++--
 src/lib/rjs_data_block_opt.c     | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lib/include/rjs_data_block.h b/src/lib/include/rjs_data_block.h
index 250d7c6..5d73f2b 100644
--- a/src/lib/include/rjs_data_block.h
+++ b/src/lib/include/rjs_data_block.h
@@ -53,8 +53,9 @@ struct RJS_DataBlock_s {
 
 /**Waiter.*/
 struct RJS_Waiter_s {
-    RJS_List       ln;   /**< List node data.*/
-    pthread_cond_t cond; /**< Condtion variable.*/
+    RJS_List       ln;       /**< List node data.*/
+    pthread_cond_t cond;     /**< Condtion variable.*/
+    RJS_Bool       notified; /**< The waiter is notified.*/
 };
 
 /**Waiter list.*/
diff --git a/src/lib/rjs_data_block_opt.c b/src/lib/rjs_data_block_opt.c
index ea0cee4..45d28f2 100644
--- a/src/lib/rjs_data_block_opt.c
+++ b/src/lib/rjs_data_block_opt.c
@@ -26,6 +26,9 @@
 #include "ratjs_internal.h"
 
 #if ENABLE_ATOMICS
+/*Waiting with a longer timeout (in milliseconds) is endless.*/
+#define MAX_WAIT_TIMEOUT 1e15
+
 /*Free the waiter.*/
 static void
 waiter_free (RJS_Waiter *w)
@@ -255,16 +258,19 @@ rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Numb
     RJS_Waiter      *w;
     struct timespec  ts;
     RJS_Result       r;
+    int              e = 0;
 
     w = malloc(sizeof(RJS_Waiter));
     assert(w);
 
     pthread_cond_init(&w->cond, NULL);
+    w->notified = RJS_FALSE;
 
     rjs_list_append(&wl->waiters, &w->ln);
 
-    if (timeout == INFINITY) {
-        r = pthread_cond_wait(&w->cond, &db->lock);
+    if (timeout >= MAX_WAIT_TIMEOUT) {
+        while (!w->notified)
+            pthread_cond_wait(&w->cond, &db->lock);
     } else {
         uint64_t ms = timeout;
 
@@ -278,13 +284,17 @@ rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Numb
             ts.tv_nsec -= 1000000000;
         }
 
-        r = pthread_cond_timedwait(&w->cond, &db->lock, &ts);
+        while (!w->notified && (e != ETIMEDOUT))
+            e = pthread_cond_timedwait(&w->cond, &db->lock, &ts);
     }
 
+    /*The waiter may be notified after the timeout and before getting the lock.*/
+    r = w->notified;
+
     rjs_list_remove(&w->ln);
     waiter_free(w);
 
-    return (r == ETIMEDOUT) ? RJS_FALSE : RJS_TRUE;
+    return r;
 }
 
 /**
@@ -297,6 +307,8 @@ rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Numb
 RJS_Result
 rjs_notify_waiter (RJS_Runtime *rt, RJS_Waiter *w)
 {
+    w->notified = RJS_TRUE;
+
     pthread_cond_signal(&w->cond);
 
     return RJS_OK;
-- 
2.43.0


From 19174afffa662f5824b790796dca8b1b13029baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 069/127] fix: Atomics.wait compares the value wrapped to 64
 bits

---
 src/lib/rjs_atomics_object_inc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/rjs_atomics_object_inc.c b/src/lib/rjs_atomics_object_inc.c
index 68b1f39..68e76fc 100644
--- a/src/lib/rjs_atomics_object_inc.c
+++ b/src/lib/rjs_atomics_object_inc.c
@@ -1418,8 +1418,14 @@ static RJS_NF(Atomics_wait)
 
 #if ENABLE_BIG_INT
     if (iio->type == RJS_ARRAY_ELEMENT_BIGINT64) {
+        int64_t n;
+
         if ((r = rjs_to_big_int(rt, value, v)) == RJS_ERR)
             goto end;
+        if ((r = rjs_big_int_to_int64(rt, v, &n)) == RJS_ERR)
+            goto end;
+
+        rjs_big_int_from_int64(rt, v, n);
     } else
 #endif /*ENABLE_BIG_INT*/
     {
-- 
2.43.0


From 46085628c32f5102aa1413f8750e0e14dffe9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 070/127] fix: internal UTF-8 encoder does not write beyond the
 output buffer

---
 src/lib/rjs_conv_internal_opt.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/rjs_conv_internal_opt.c b/src/lib/rjs_conv_internal_opt.c
index 16af330..efd29c6 100644
--- a/src/lib/rjs_conv_internal_opt.c
+++ b/src/lib/rjs_conv_internal_opt.c
@@ -70,15 +70,24 @@ utf8_from_uc (uint32_t uc, uint8_t *c, size_t len)
         c[0] = uc;
         return 1;
     } else if (uc < 0x800) {
+        if (len < 2)
+            return 0;
+
         c[0] = (uc >> 6) | 0xc0;
         c[1] = (uc & 0x3f) | 0x80;
         return 2;
     } else if (uc < 0x10000) {
+        if (len < 3)
+            return 0;
+
         c[0] = (uc >> 12) | 0xe0;
         c[1] = ((uc >> 6) & 0x3f) | 0x80;
         c[2] = (uc & 0x3f) | 0x80;
         return 3;
     } else if (uc < 0x200000) {
+        if (len < 4)
+            return 0;
+
         c[0] = (uc >> 18) | 0xf0;
         c[1] = ((uc >> 12) & 0x3f) | 0x80;
         c[2] = ((uc >> 6) & 0x3f) | 0x80;
-- 
2.43.0


From 4ed8f4f5347ed0603ad995e5b1360f539766bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 071/127] fix: iconv builds convert characters outside the BMP

---
 src/lib/include/rjs_conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/include/rjs_conv.h b/src/lib/include/rjs_conv.h
index ec9bc96..a572515 100644
--- a/src/lib/include/rjs_conv.h
+++ b/src/lib/include/rjs_conv.h
@@ -35,7 +35,7 @@
 extern "C" {
 #endif
 
-#if ENC_CONV == ENC_CONV_ICU
+#if (ENC_CONV == ENC_CONV_ICU) || (ENC_CONV == ENC_CONV_ICONV)
     #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
         #define RJS_ENC_UCHAR  "UTF-16LE"
         #define RJS_ENC_UC     "UTF-32LE"
-- 
2.43.0


From bd4f857fa23c96242690cc963d2bf1777ef45dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 072/127] fix: encodeText and decodeText check the buffer after
 converting their arguments

---
 src/lib/rjs_extension_opt.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 1570318..a0af8b5 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -475,6 +475,11 @@ static RJS_NF(ext_encodeText)
             from = RJS_MIN(rel_start, buf_len);
     }
 
+    if (rjs_is_detached_buffer(rt, buf)) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
+
     len = RJS_MIN(buf_len - from, len);
 
     db = rjs_array_buffer_get_data_block(rt, buf);
@@ -556,6 +561,11 @@ static RJS_NF(ext_decodeText)
             to = RJS_MIN(rel_end, buf_len);
     }
 
+    if (rjs_is_detached_buffer(rt, buf)) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
+
     len = RJS_MAX(to - from, 0);
 
     db = rjs_array_buffer_get_data_block(rt, buf);
-- 
2.43.0


From fab9c285df95b46cab9c85d655377718cc8c1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 073/127] fix: File.storeData and appendData write the data of
 their buffer argument

---
 src/lib/rjs_extension_opt.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index a0af8b5..26279cd 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1672,12 +1672,6 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
         goto end;
     }
 
-    if (!(db = rjs_array_buffer_get_data_block(rt, rv))) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
-        goto end;
-    }
-
-    buf  = rjs_data_block_get_buffer(db);
     size = rjs_array_buffer_get_size(rt, abuf);
 
     if (argc > 2) {
@@ -1698,7 +1692,14 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
         cnti = size - posi;
     }
 
-    if (fwrite(buf + posi, 1, cnti, fp) != cnti) {
+    if (!(db = rjs_array_buffer_get_data_block(rt, abuf))) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
+
+    buf = rjs_data_block_get_buffer(db);
+
+    if (cnti && (fwrite(buf + posi, 1, cnti, fp) != cnti)) {
         r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
         goto end;
     }
-- 
2.43.0


From 1a7182c56f0014dad6c805ee4da3f77fa4b09b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 074/127] fix: File read and write must use the start position
 in the buffer

---
 src/lib/rjs_extension_opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 26279cd..ed20274 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1033,7 +1033,7 @@ static RJS_NF(File_prototype_read)
 
         buf = rjs_data_block_get_buffer(db);
 
-        rn = fread(buf, 1, cnti, file->fp);
+        rn = fread((uint8_t*)buf + posi, 1, cnti, file->fp);
 
         if ((rn == 0) && ferror(file->fp)) {
             r = rjs_throw_type_error(rt, _("fread failed: %s"), strerror(errno));
@@ -1108,7 +1108,7 @@ static RJS_NF(File_prototype_write)
 
         buf = rjs_data_block_get_buffer(db);
 
-        rn = fwrite(buf, 1, cnti, file->fp);
+        rn = fwrite((uint8_t*)buf + posi, 1, cnti, file->fp);
 
         if ((rn != cnti) && ferror(file->fp)) {
             r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
-- 
2.43.0


From 7ecd437477e6d7688b5be1102e87349040f8e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 075/127] fix: File.prototype.seek must accept negative offsets

---
 src/lib/rjs_extension_opt.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index ed20274..45003d7 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1131,7 +1131,7 @@ static RJS_NF(File_prototype_seek)
 {
     RJS_Value *offset = rjs_argument_get(rt, args, argc, 0);
     RJS_Value *whence = rjs_argument_get(rt, args, argc, 1);
-    int64_t    offseti;
+    RJS_Number offsetn;
     int32_t    whencei;
     RJS_File  *file;
     RJS_Result r;
@@ -1147,13 +1147,18 @@ static RJS_NF(File_prototype_seek)
         goto end;
     }
 
-    if ((r = rjs_to_index(rt, offset, &offseti)) == RJS_ERR)
+    if ((r = rjs_to_integer_or_infinity(rt, offset, &offsetn)) == RJS_ERR)
         goto end;
 
     if ((r = rjs_to_int32(rt, whence, &whencei)) == RJS_ERR)
         goto end;
 
-    if (fseek(file->fp, offseti, whencei) == -1) {
+    if ((offsetn > LONG_MAX) || (offsetn < LONG_MIN)) {
+        r = rjs_throw_range_error(rt, _("file offset is out of range"));
+        goto end;
+    }
+
+    if (fseek(file->fp, (long)offsetn, whencei) == -1) {
         r = rjs_throw_type_error(rt, _("fseek failed: %s"), strerror(errno));
         goto end;
     }
-- 
2.43.0


From 9e7ad727a4b45994b6a6c891fb2db45ea52ad58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 076/127] fix: recheck that the file is open after converting
 the arguments

---
 src/lib/rjs_extension_opt.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 45003d7..a06882b 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1025,6 +1025,11 @@ static RJS_NF(File_prototype_read)
         cnti = size - posi;
     }
 
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     if (cnti) {
         if (!(db = rjs_array_buffer_get_data_block(rt, abuf))) {
             r = rjs_throw_type_error(rt, _("the array buffer is detached"));
@@ -1100,6 +1105,11 @@ static RJS_NF(File_prototype_write)
         cnti = size - posi;
     }
 
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     if (cnti) {
         if (!(db = rjs_array_buffer_get_data_block(rt, abuf))) {
             r = rjs_throw_type_error(rt, _("the array buffer is detached"));
@@ -1153,6 +1163,11 @@ static RJS_NF(File_prototype_seek)
     if ((r = rjs_to_int32(rt, whence, &whencei)) == RJS_ERR)
         goto end;
 
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     if ((offsetn > LONG_MAX) || (offsetn < LONG_MIN)) {
         r = rjs_throw_range_error(rt, _("file offset is out of range"));
         goto end;
@@ -1272,6 +1287,11 @@ static RJS_NF(File_prototype_putChar)
     if ((r = rjs_to_int32(rt, chr, &i)) == RJS_ERR)
         goto end;
 
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     r = fputc(i, file->fp);
     if (r == EOF) {
         r = rjs_throw_type_error(rt, _("futc failed: %s"), strerror(errno));
@@ -1318,6 +1338,11 @@ static RJS_NF(File_prototype_getString)
         ecstr = NULL;
     }
 
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     while (1) {
         c = fgetc(file->fp);
         if (c == EOF)
@@ -1376,6 +1401,11 @@ static RJS_NF(File_prototype_putString)
         ecstr = NULL;
     }
 
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr);
 
     n = fwrite(pcstr, 1, pcb.item_num, file->fp);
-- 
2.43.0


From 87d52673eed9f4ef4a2fb3e5f8068acde757d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 077/127] fix: validate arguments before
 File.storeString/storeData truncate the file

---
 src/lib/rjs_extension_opt.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index a06882b..a0f103d 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1406,7 +1406,10 @@ static RJS_NF(File_prototype_putString)
         goto end;
     }
 
-    pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr);
+    if (!(pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr))) {
+        r = rjs_throw_type_error(rt, _("cannot encode the string"));
+        goto end;
+    }
 
     n = fwrite(pcstr, 1, pcb.item_num, file->fp);
     if (n != pcb.item_num) {
@@ -1577,11 +1580,6 @@ file_save_string (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv,
 
     ncstr = rjs_string_to_enc_chars(rt, nstr, &ncb, NULL);
 
-    if (!(fp = fopen(ncstr, mode))) {
-        r = rjs_throw_type_error(rt, _("fopen \"%s\" failed: %s"), ncstr, strerror(errno));
-        goto end;
-    }
-
     if ((r = rjs_to_string(rt, out, ostr)) == RJS_ERR)
         goto end;
 
@@ -1594,7 +1592,15 @@ file_save_string (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv,
         ecstr = NULL;
     }
 
-    ocstr = rjs_string_to_enc_chars(rt, ostr, &ocb, ecstr);
+    if (!(ocstr = rjs_string_to_enc_chars(rt, ostr, &ocb, ecstr))) {
+        r = rjs_throw_type_error(rt, _("cannot encode the string"));
+        goto end;
+    }
+
+    if (!(fp = fopen(ncstr, mode))) {
+        r = rjs_throw_type_error(rt, _("fopen \"%s\" failed: %s"), ncstr, strerror(errno));
+        goto end;
+    }
 
     if (fwrite(ocstr, 1, ocb.item_num, fp) != ocb.item_num) {
         r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
@@ -1695,13 +1701,6 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
     if ((r = rjs_to_string(rt, name, nstr)) == RJS_ERR)
         goto end;
 
-    ncstr = rjs_string_to_enc_chars(rt, nstr, NULL, NULL);
-
-    if (!(fp = fopen(ncstr, mode))) {
-        r = rjs_throw_type_error(rt, _("fopen \"%s\" failed: %s"), ncstr, strerror(errno));
-        goto end;
-    }
-
     if (!rjs_is_array_buffer(rt, abuf)) {
         r = rjs_throw_type_error(rt, _("the value is not an array buffer"));
         goto end;
@@ -1734,6 +1733,13 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
 
     buf = rjs_data_block_get_buffer(db);
 
+    ncstr = rjs_string_to_enc_chars(rt, nstr, NULL, NULL);
+
+    if (!(fp = fopen(ncstr, mode))) {
+        r = rjs_throw_type_error(rt, _("fopen \"%s\" failed: %s"), ncstr, strerror(errno));
+        goto end;
+    }
+
     if (cnti && (fwrite(buf + posi, 1, cnti, fp) != cnti)) {
         r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
         goto end;
-- 
2.43.0


From 900aff6ce201dfceff0a226203c30102dc504166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 078/127] fix: throw an error when text cannot be encoded or
 decoded

---
 src/lib/rjs_extension_opt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index a0f103d..75850ea 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -437,7 +437,7 @@ static RJS_NF(ext_encodeText)
 
     /*Encode.*/
     if (!(cstr = rjs_string_to_enc_chars(rt, str, &scb, ecstr))) {
-        r = RJS_ERR;
+        r = rjs_throw_type_error(rt, _("cannot encode the string"));
         goto end;
     }
     
@@ -573,8 +573,10 @@ static RJS_NF(ext_decodeText)
     rjs_array_buffer_lock(rt, buf);
     r = rjs_string_from_enc_chars(rt, rv, (char*)db->data + from, len, ecstr);
     rjs_array_buffer_unlock(rt, buf);
-    if (r == RJS_ERR)
+    if (r == RJS_ERR) {
+        r = rjs_throw_type_error(rt, _("cannot decode the text"));
         goto end;
+    }
 
     r = RJS_OK;
 end:
@@ -1354,7 +1356,8 @@ static RJS_NF(File_prototype_getString)
             break;
     }
 
-    r = rjs_string_from_enc_chars(rt, rv, cb.items, cb.item_num, ecstr);
+    if ((r = rjs_string_from_enc_chars(rt, rv, cb.items, cb.item_num, ecstr)) == RJS_ERR)
+        r = rjs_throw_type_error(rt, _("cannot decode the text"));
 end:
     rjs_char_buffer_deinit(rt, &cb);
     rjs_value_stack_restore(rt, top);
-- 
2.43.0


From a25efe6f186e4dd58489886cc561edac52ca9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 079/127] fix: convert encodeText/decodeText positions to
 integers

---
 src/lib/rjs_extension_opt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 75850ea..751700e 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -465,7 +465,7 @@ static RJS_NF(ext_encodeText)
     if (rjs_value_is_undefined(rt, start)) {
         from = 0;
     } else {
-        if ((r = rjs_to_number(rt, start, &rel_start)) == RJS_ERR)
+        if ((r = rjs_to_integer_or_infinity(rt, start, &rel_start)) == RJS_ERR)
             goto end;
         if (rel_start == -INFINITY)
             from = 0;
@@ -538,7 +538,7 @@ static RJS_NF(ext_decodeText)
     if (rjs_value_is_undefined(rt, start)) {
         from = 0;
     } else {
-        if ((r = rjs_to_number(rt, start, &rel_start)) == RJS_ERR)
+        if ((r = rjs_to_integer_or_infinity(rt, start, &rel_start)) == RJS_ERR)
             goto end;
         if (rel_start == -INFINITY)
             from = 0;
@@ -551,7 +551,7 @@ static RJS_NF(ext_decodeText)
     if (rjs_value_is_undefined(rt, end)) {
         to = buf_len;
     } else {
-        if ((r = rjs_to_number(rt, end, &rel_end)) == RJS_ERR)
+        if ((r = rjs_to_integer_or_infinity(rt, end, &rel_end)) == RJS_ERR)
             goto end;
         if (rel_end == -INFINITY)
             to = 0;
-- 
2.43.0


From 51a1fd02a5653e27fd25aef2d6ac6ff578beaa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 080/127] fix: File.prototype.seek offset bound

---
 src/lib/rjs_extension_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 751700e..d767061 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1170,7 +1170,7 @@ static RJS_NF(File_prototype_seek)
         goto end;
     }
 
-    if ((offsetn > LONG_MAX) || (offsetn < LONG_MIN)) {
+    if ((offsetn >= (RJS_Number)LONG_MAX) || (offsetn < (RJS_Number)LONG_MIN)) {
         r = rjs_throw_range_error(rt, _("file offset is out of range"));
         goto end;
     }
-- 
2.43.0


From 3923c7a0cf26cafa09475e61d3010c80a66f344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:41 +0000
Subject: [PATCH 081/127] fix: new FileState() must not throw

---
 src/lib/rjs_extension_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index d767061..d13a7e7 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -784,7 +784,7 @@ static RJS_NF(FileState_constructor)
     }
 
     if (nt) {
-        if ((r = rjs_constructor_prototype(rt, nt, cproto)) == RJS_ERR)
+        if ((r = rjs_get(rt, nt, rjs_pn_prototype(rt), cproto)) == RJS_ERR)
             goto end;
 
         if (!rjs_value_is_object(rt, cproto))
-- 
2.43.0


From 9a8d323eed8df958d9c32bf008119946660d9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 082/127] fix: arguments of a nested new expression

---
 src/lib/rjs_parser.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index b9b9bcc..18c541a 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3840,23 +3840,20 @@ parse_new_expr (RJS_Runtime *rt, RJS_Value *ve)
 
         /*Add new.target to contains list.*/
         contains_list_add(rt, RJS_AST_NewTargetRef, &ast->location);
-    } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_new)) {
-        RJS_AstCall *ne;
-
-        ne = ast_new(rt, ve, RJS_AST_NewExpr, &loc);
-
-        unget_token(rt);
-        if ((r = parse_expr_prio(rt, PRIO_NEW, &ne->func)) == RJS_ERR)
-            goto end;
-
-        loc_update_last_ast(rt, &ne->ast.location, &ne->func);
     } else {
         RJS_AstCall *ne;
+        int          prio;
+
+        /*The constructor may be a new expression.*/
+        if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_new))
+            prio = PRIO_NEW;
+        else
+            prio = PRIO_MEMBER;
 
         ne = ast_new(rt, ve, RJS_AST_NewExpr, &loc);
 
         unget_token(rt);
-        if ((r = parse_expr_prio(rt, PRIO_MEMBER, &ne->func)) == RJS_ERR)
+        if ((r = parse_expr_prio(rt, prio, &ne->func)) == RJS_ERR)
             goto end;
 
         loc_update_last_ast(rt, &ne->ast.location, &ne->func);
-- 
2.43.0


From e07eed527357b75a55335e638d2594bbafdeddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 083/127] fix: optional call on an optional member expression

---
 src/lib/rjs_bc_gen.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index dacc995..eb9cab7 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -734,6 +734,15 @@ bc_ref_get_value (RJS_Runtime *rt, RJS_BcGen *bg, int line, int rid, RJS_BcRef *
         break;
     }
 
+    if (ref->opt_expr) {
+        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->stub.label = bg->opt_end_label;
+
+        bg->opt_end_label = ref->old_opt_label;
+        bg->opt_res_reg   = ref->old_opt_reg;
+    }
+
     if (ref->opt_base) {
         int cr  = bc_reg_add(rt, bg);
         int lop = bc_label_add(rt, bg);
@@ -761,15 +770,6 @@ bc_ref_get_value (RJS_Runtime *rt, RJS_BcGen *bg, int line, int rid, RJS_BcRef *
         cmd->stub.label = lop;
     }
 
-    if (ref->opt_expr) {
-        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
-        cmd = bc_cmd_get(bg, cid);
-        cmd->stub.label = bg->opt_end_label;
-
-        bg->opt_end_label = ref->old_opt_label;
-        bg->opt_res_reg   = ref->old_opt_reg;
-    }
-
     return RJS_OK;
 }
 
-- 
2.43.0


From fbabc55ca815722dd630f749b90205b306ee0e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 084/127] fix: template objects are created in the realm of the
 code

---
 src/lib/include/rjs_parser.h |  1 +
 src/lib/rjs_parser.c         | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lib/include/rjs_parser.h b/src/lib/include/rjs_parser.h
index d0b7241..3d0afd1 100644
--- a/src/lib/include/rjs_parser.h
+++ b/src/lib/include/rjs_parser.h
@@ -193,6 +193,7 @@ typedef enum {
 
 /**Parser.*/
 struct RJS_Parser_s {
+    RJS_Realm      *realm;      /**< The realm of the code.*/
     RJS_Lex       lex;         /**< The lexical analyzer.*/
     int           flags;       /**< Flags.*/
     int           status;      /**< Status.*/
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 18c541a..7e3cb48 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -1452,8 +1452,9 @@ continue_pop (RJS_Runtime *rt)
 
 /*Initialize the parser.*/
 static void
-parser_init (RJS_Runtime *rt, RJS_Parser *parser, RJS_Input *input)
+parser_init (RJS_Runtime *rt, RJS_Parser *parser, RJS_Input *input, RJS_Realm *realm)
 {
+    parser->realm       = realm;
     parser->flags       = 0;
     parser->status      = 0;
     parser->last_line   = 1;
@@ -2813,7 +2814,9 @@ parse_template_literal (RJS_Runtime *rt, RJS_Value *vt, RJS_Bool is_tagged)
     RJS_PropertyDesc      pd;
     size_t                i;
     size_t                nitem  = 0;
+    RJS_Value            *proto;
     RJS_AstTemplate      *templ  = NULL;
+    RJS_Parser           *parser = rt->parser;
     size_t                top    = rjs_value_stack_save(rt);
     RJS_Value            *tmp    = rjs_value_stack_push(rt);
     RJS_Value            *templv = rjs_value_stack_push(rt);
@@ -2877,8 +2880,11 @@ parse_template_literal (RJS_Runtime *rt, RJS_Value *vt, RJS_Bool is_tagged)
         loc_update_last_token(rt, &templ->ast.location);
     }
 
-    rjs_array_new(rt, templv, nitem, NULL);
-    rjs_array_new(rt, rawv, nitem, NULL);
+    /*The template object belongs to the realm of the code.*/
+    proto = parser->realm ? rjs_o_Array_prototype(parser->realm) : NULL;
+
+    rjs_array_new(rt, templv, nitem, proto);
+    rjs_array_new(rt, rawv, nitem, proto);
 
     rjs_property_desc_init(rt, &pd);
     pd.flags = RJS_PROP_FL_DATA|RJS_PROP_FL_ENUMERABLE;
@@ -9401,7 +9407,7 @@ rjs_parse_script (RJS_Runtime *rt, RJS_Input *input, RJS_Realm *realm, int flags
     RJS_Result r;
     size_t     top = rjs_value_stack_save(rt);
 
-    parser_init(rt, &parser, input);
+    parser_init(rt, &parser, input, realm);
 
     parser.flags |= flags;
 
@@ -9453,7 +9459,7 @@ rjs_parse_function (RJS_Runtime *rt, RJS_Input *input, RJS_Realm *realm, RJS_Val
     RJS_Result r;
     size_t     top = rjs_value_stack_save(rt);
 
-    parser_init(rt, &parser, input);
+    parser_init(rt, &parser, input, realm);
     r = parse_function(rt, realm, rv);
     parser_deinit(rt);
 
@@ -9560,7 +9566,7 @@ rjs_parse_eval (RJS_Runtime *rt, RJS_Input *input, RJS_Realm *realm, int flags,
     RJS_Result r;
     size_t     top = rjs_value_stack_save(rt);
 
-    parser_init(rt, &parser, input);
+    parser_init(rt, &parser, input, realm);
 
     parser.flags = flags|RJS_PARSE_FL_EVAL;
 
@@ -9704,7 +9710,7 @@ rjs_parse_module (RJS_Runtime *rt, RJS_Input *input, const char *id, RJS_Realm *
     RJS_Result r;
     size_t     top = rjs_value_stack_save(rt);
 
-    parser_init(rt, &parser, input);
+    parser_init(rt, &parser, input, realm);
     r = parse_module(rt, id, realm, rv);
     parser_deinit(rt);
 
-- 
2.43.0


From 26e488a7555840b041a3932e7da1af9737360f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 085/127] fix: name of a parenthesized anonymous function in a
 class field

---
 src/lib/rjs_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 7e3cb48..2cad64d 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -8164,6 +8164,12 @@ parse_class_element (RJS_Runtime *rt, RJS_Bool is_static, RJS_AstClass *c)
             check_expr(rt, &es->expr);
 
             init = ast_get(rt, &es->expr);
+            while (init && (init->type == RJS_AST_ParenthesesExpr)) {
+                RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)init;
+
+                init = ast_get(rt, &ue->operand);
+            }
+
             if (init) {
                 if (init->type == RJS_AST_FuncExpr) {
                     RJS_AstFuncRef *fr = (RJS_AstFuncRef*)init;
-- 
2.43.0


From dd684e58ab20d2c4ab113603c92a1ba414a2ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 086/127] fix: keep the static name element of an anonymous
 class

---
 include/ratjs/rjs_operation.h | 12 +++++++++++
 src/lib/rjs_native_stack.c    |  2 +-
 src/lib/rjs_operation.c       | 39 ++++++++++++++++++++++++++++++++++-
 3 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index 9f45a20..8dc2935 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -1889,6 +1889,18 @@ rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel leve
 extern RJS_Result
 rjs_set_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name, RJS_Value *prefix);
 
+/**
+ * Set the name property of the anonymous function or class.
+ * The "name" property defined by a static element of the class is kept.
+ * \param rt The current runtime.
+ * \param f The function.
+ * \param name The name value.
+ * \retval RJS_OK On success.
+ * \retval RJS_ERR On error.
+ */
+extern RJS_Result
+rjs_set_anonymous_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name);
+
 /**
  * Set the length property of the function.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 20c1414..b938a03 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1416,7 +1416,7 @@ rjs_object_state_add (RJS_Runtime *rt, RJS_Value *name, RJS_Value *value, RJS_Bo
     assert(s->type == RJS_STATE_OBJECT);
 
     if (is_af)
-        rjs_set_function_name(rt, value, name, NULL);
+        rjs_set_anonymous_function_name(rt, value, name);
 
     if ((r = rjs_to_property_key(rt, name, key)) == RJS_ERR)
         goto end;
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 1dfe3e5..1072bb8 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1142,6 +1142,43 @@ rjs_set_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name, RJS_Value
     return r;
 }
 
+/**
+ * Set the name property of the anonymous function or class.
+ * The "name" property defined by a static element of the class is kept.
+ * \param rt The current runtime.
+ * \param f The function.
+ * \param name The name value.
+ * \retval RJS_OK On success.
+ * \retval RJS_ERR On error.
+ */
+RJS_Result
+rjs_set_anonymous_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name)
+{
+    size_t           top = rjs_value_stack_save(rt);
+    RJS_Bool         own = RJS_FALSE;
+    RJS_PropertyDesc pd;
+    RJS_Result       r;
+
+    rjs_property_desc_init(rt, &pd);
+
+    r = rjs_object_get_own_property(rt, f, rjs_pn_name(rt), &pd);
+    if (r == RJS_OK) {
+        /*The initial value of "name" is a readonly empty string.*/
+        own = !rjs_is_data_descriptor(&pd)
+                || (pd.flags & RJS_PROP_FL_WRITABLE)
+                || !rjs_value_is_string(rt, pd.value)
+                || rjs_string_get_length(rt, pd.value);
+    }
+
+    rjs_property_desc_deinit(rt, &pd);
+
+    if ((r != RJS_ERR) && !own)
+        r = rjs_set_function_name(rt, f, name, NULL);
+
+    rjs_value_stack_restore(rt, top);
+    return r;
+}
+
 /**
  * Set the length property of the function.
  * \param rt The current runtime.
@@ -1843,7 +1880,7 @@ rjs_define_field (RJS_Runtime *rt, RJS_Value *o, RJS_Value *name, RJS_Value *ini
             goto end;
 
         if (is_af)
-            rjs_set_function_name(rt, tmp, name, NULL);
+            rjs_set_anonymous_function_name(rt, tmp, name);
     } else {
         rjs_value_set_undefined(rt, tmp);
     }
-- 
2.43.0


From 46de143367008862059f1df4f7f683ec7b781193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:18 +0000
Subject: [PATCH 087/127] fix: Array constructor must not change its argument

---
 src/lib/rjs_array_object_inc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index c593d21..4c57ec2 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -30,6 +30,7 @@ static RJS_NF(Array_constructor)
 {
     size_t     top   = rjs_value_stack_save(rt);
     RJS_Value *proto = rjs_value_stack_push(rt);
+    RJS_Value *one   = rjs_value_stack_push(rt);
     RJS_Result r;
 
     if (!nt)
@@ -49,7 +50,10 @@ static RJS_NF(Array_constructor)
 
         if (!rjs_value_is_number(rt, lenv)) {
             rjs_create_data_property_or_throw_index(rt, rv, 0, lenv);
-            rjs_value_set_number(rt, lenv, 1);
+
+            /*Do not change the value of the argument.*/
+            rjs_value_set_number(rt, one, 1);
+            lenv = one;
         } else {
             uint32_t ilen;
 
-- 
2.43.0


From 52e3b05ad0e69a0f70c82a38b76cc91f08b75b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:18 +0000
Subject: [PATCH 088/127] fix: release the buffer and check the prototype error
 in dynamic function creation

---
 src/lib/rjs_script_func_object.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index ca39762..d4eac2a 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -502,8 +502,6 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
     rjs_uchar_buffer_append_chars(rt, &ucb, "\n}", -1);
     rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num);
 
-    rjs_uchar_buffer_deinit(rt, &ucb);
-
     /*Create the input source.*/
     if ((r = rjs_string_input_init(rt, &si, src)) == RJS_ERR)
         goto end;
@@ -544,7 +542,8 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
         fallback_proto = RJS_O_Function_prototype;
     }
 
-    rjs_get_prototype_from_constructor(rt, nt, fallback_proto, proto);
+    if ((r = rjs_get_prototype_from_constructor(rt, nt, fallback_proto, proto)) == RJS_ERR)
+        goto end;
 
     /*Create the function.*/
 #if ENABLE_GENERATOR
@@ -566,6 +565,7 @@ end:
     if (need_close)
         rjs_input_deinit(rt, &si);
 
+    rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From f241056fb7f0e0477b44630108c06c7a2373c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:25 +0000
Subject: [PATCH 089/127] fix: parameters and body of a dynamic function must
 be valid by themselves

---
 src/lib/rjs_parser.c             |  8 ++++
 src/lib/rjs_script_func_object.c | 64 +++++++++++++++++++++++++-------
 2 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 2cad64d..9b66e2b 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -9437,6 +9437,14 @@ parse_function (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *rv)
 
     parse_hoistable_decl(rt, RJS_FALSE, tmp);
 
+    /*The input must be a single function.*/
+    if (!parser_has_error(rt)) {
+        RJS_Token *tok = get_token(rt);
+
+        if (tok->type != RJS_TOKEN_END)
+            parse_unexpect_token_error(rt, &tok->location, RJS_TOKEN_END, 0);
+    }
+
 #if ENABLE_PRIV_NAME
     check_priv_ids(rt);
 #endif /*ENABLE_PRIV_NAME*/
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index d4eac2a..9c43409 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -425,6 +425,25 @@ rjs_script_func_object_make_constructor (RJS_Runtime *rt, RJS_Value *f)
     return RJS_OK;
 }
 
+/*Parse the source of the dynamic function.*/
+static RJS_Result
+parse_dynamic_function (RJS_Runtime *rt, RJS_Value *src, RJS_Value *scriptv)
+{
+    RJS_Input  si;
+    RJS_Result r;
+
+    if ((r = rjs_string_input_init(rt, &si, src)) == RJS_ERR)
+        return r;
+
+    si.flags |= RJS_INPUT_FL_CRLF_TO_LF;
+
+    if ((r = rjs_parse_function(rt, &si, rjs_realm_current(rt), scriptv)) == RJS_ERR)
+        r = rjs_throw_syntax_error(rt, _("function syntax error"));
+
+    rjs_input_deinit(rt, &si);
+    return r;
+}
+
 /**
  * Create a dynamic function.
  * \param rt The current runtime.
@@ -446,13 +465,12 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
     RJS_Value       *src        = rjs_value_stack_push(rt);
     RJS_Value       *scriptv    = rjs_value_stack_push(rt);
     RJS_Value       *proto      = rjs_value_stack_push(rt);
-    RJS_Bool         need_close = RJS_FALSE;
     size_t           i          = 0;
+    size_t           params_begin, params_end, body_begin, body_end;
     int              fallback_proto;
     RJS_Environment *global_env;
     RJS_Value       *arg;
     RJS_UCharBuffer  ucb;
-    RJS_Input        si;
     RJS_Script      *script;
     RJS_ScriptFunc  *sf;
     RJS_Result       r;
@@ -474,6 +492,8 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
 
     rjs_uchar_buffer_append_chars(rt, &ucb, " anonymous(", -1);
 
+    params_begin = ucb.item_num;
+
     if (argc > 1) {
         for (i = 0; i < argc - 1; i ++) {
             if (i != 0)
@@ -488,8 +508,12 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
         }
     }
 
+    params_end = ucb.item_num;
+
     rjs_uchar_buffer_append_chars(rt, &ucb, "\n) {\n", -1);
 
+    body_begin = ucb.item_num;
+
     if (i < argc) {
         arg = rjs_argument_get(rt, args, argc, i);
 
@@ -499,21 +523,38 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
         rjs_uchar_buffer_append_string(rt, &ucb, str);
     }
 
+    body_end = ucb.item_num;
+
     rjs_uchar_buffer_append_chars(rt, &ucb, "\n}", -1);
     rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num);
 
-    /*Create the input source.*/
-    if ((r = rjs_string_input_init(rt, &si, src)) == RJS_ERR)
-        goto end;
+    /*The parameters and the body must be valid by themselves.*/
+    if (params_end > params_begin) {
+        RJS_UCharBuffer part;
 
-    si.flags |= RJS_INPUT_FL_CRLF_TO_LF;
-    need_close = RJS_TRUE;
+        rjs_uchar_buffer_init(rt, &part);
+        rjs_uchar_buffer_append_uchars(rt, &part, ucb.items, body_begin);
+        rjs_uchar_buffer_append_uchars(rt, &part, ucb.items + body_end, ucb.item_num - body_end);
+        rjs_string_from_uchars(rt, str, part.items, part.item_num);
+        rjs_uchar_buffer_clear(rt, &part);
+
+        if ((r = parse_dynamic_function(rt, str, scriptv)) == RJS_OK) {
+            rjs_uchar_buffer_append_uchars(rt, &part, ucb.items, params_begin);
+            rjs_uchar_buffer_append_uchars(rt, &part, ucb.items + params_end, ucb.item_num - params_end);
+            rjs_string_from_uchars(rt, str, part.items, part.item_num);
+
+            r = parse_dynamic_function(rt, str, scriptv);
+        }
+
+        rjs_uchar_buffer_deinit(rt, &part);
+
+        if (r == RJS_ERR)
+            goto end;
+    }
 
     /*Parse the function.*/
-    if ((r = rjs_parse_function(rt, &si, rjs_realm_current(rt), scriptv)) == RJS_ERR) {
-        r = rjs_throw_syntax_error(rt, _("function syntax error"));
+    if ((r = parse_dynamic_function(rt, src, scriptv)) == RJS_ERR)
         goto end;
-    }
 
     script     = rjs_value_get_gc_thing(rt, scriptv);
     sf         = script->func_table;
@@ -562,9 +603,6 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
             rjs_make_constructor(rt, func, RJS_TRUE, NULL);
     }
 end:
-    if (need_close)
-        rjs_input_deinit(rt, &si);
-
     rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From f46c94a30f1a0b219e3b21dafa0fb3b99c179060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 090/127] fix: private environments nested in field
 initializers use wrong names

---
 src/lib/rjs_code_gen_inc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_code_gen_inc.c b/src/lib/rjs_code_gen_inc.c
index 216a9ed..bc7b7a8 100644
--- a/src/lib/rjs_code_gen_inc.c
+++ b/src/lib/rjs_code_gen_inc.c
@@ -447,12 +447,14 @@ gen_script_internal (RJS_Runtime *rt, RJS_Script *script)
         RJS_NEW_N(rt, script->priv_id_table, script->priv_id_num);
         RJS_NEW_N(rt, script->priv_env_table, script->priv_env_num);
 
-        env = script->priv_env_table;
         pid = script->priv_id_table;
         idx = 0;
 
         rjs_list_foreach_c(&parser->priv_env_list, ast_env, RJS_AstPrivEnv, ast.ln) {
             if (ast_env->id != -1) {
+                /*The identifiers are allocated in code generation order.*/
+                env = script->priv_env_table + ast_env->id;
+
                 env->priv_id_start = idx;
                 env->priv_id_num   = ast_env->priv_id_hash.entry_num;
 
@@ -462,7 +464,6 @@ gen_script_internal (RJS_Runtime *rt, RJS_Script *script)
                 }
 
                 idx += env->priv_id_num;
-                env ++;
             }
         }
     }
-- 
2.43.0


From b97f24406c422aeab404d1c1ff4e120a952afd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 091/127] fix: \k in a character class of a pattern with named
 groups is a syntax error

---
 src/lib/rjs_regexp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 6792e7d..5f6e13a 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -642,6 +642,9 @@ identity_escape (RJS_Runtime *rt, RJS_RegExpParser *p, int c)
                 regexp_parse_error(rt, p, _("illegal identity escape character"));
                 return RJS_ERR;
         }
+    } else if ((p->flags & RJS_REGEXP_FL_N) && (c == 'k')) {
+        regexp_parse_error(rt, p, _("illegal identity escape character"));
+        return RJS_ERR;
     }
 
     return c;
-- 
2.43.0


From 6020fe33bc0106602107cb4723712eefabe2927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 092/127] fix: super property can be the callee of new

---
 src/lib/rjs_parser.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 9b66e2b..7723f1b 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -5071,14 +5071,20 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_false)) {
             ast_new(rt, tmp1, RJS_AST_False, &tok->location);
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_super)) {
-            last_prio = PRIO_LH;
-
-            if (last_prio < prio)
-                parse_error(rt, &tok->location, _("unexpected left hand expression"));
+            RJS_Ast *ast;
 
             unget_token(rt);
             if ((r = parse_super_expr(rt, tmp1)) == RJS_ERR)
                 goto end;
+
+            /*The super property is a member expression.*/
+            ast = ast_get(rt, tmp1);
+            if (ast && (ast->type == RJS_AST_SuperCallExpr)) {
+                last_prio = PRIO_LH;
+
+                if (last_prio < prio)
+                    parse_error(rt, &tok->location, _("unexpected left hand expression"));
+            }
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_new)) {
             last_prio = PRIO_NEW;
 
-- 
2.43.0


From 011dd4ff0596cfe107e43d05937d2cc6bfbbc2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 093/127] fix: private static methods and the instance elements
 are ready before static elements run

---
 src/lib/rjs_native_stack.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index b938a03..20aefca 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -678,6 +678,21 @@ rjs_class_state_init (RJS_Runtime *rt)
             sf->is_af = se->is_af;
             sf ++;
             break;
+        case RJS_CLASS_ELEMENT_STATIC_INIT:
+        case RJS_CLASS_ELEMENT_FIELD:
+            break;
+        default:
+            assert(0);
+            break;
+        }
+    }
+
+    /*The instances can be created by the static elements.*/
+    bfo->clazz = clazz;
+    clazz      = NULL;
+
+    rjs_list_foreach_c(s->s.s_class.elem_list, se, RJS_StateClassElement, ln) {
+        switch (se->type) {
         case RJS_CLASS_ELEMENT_STATIC_INIT:
             if ((r = rjs_call(rt, &se->value, s->s.s_class.constr, NULL, 0, NULL)) == RJS_ERR)
                 goto end;
@@ -687,17 +702,15 @@ rjs_class_state_init (RJS_Runtime *rt)
                 goto end;
             break;
         default:
-            assert(0);
             break;
         }
 
         s = rjs_state_top(rt);
     }
 
-    bfo->clazz = clazz;
     r = RJS_OK;
 end:
-    if (r == RJS_ERR) {
+    if (clazz) {
 #if ENABLE_PRIV_NAME
         if (clazz->priv_methods)
             RJS_DEL_N(rt, clazz->priv_methods, clazz->priv_method_num);
@@ -895,7 +908,7 @@ rjs_class_state_add_element (RJS_Runtime *rt, RJS_ClassElementType type, RJS_Val
         if ((r = rjs_define_method(rt, s->s.s_class.constr, NULL, script, sf, value)) == RJS_ERR)
             goto end;
 
-        rjs_set_function_name(rt, value, name, NULL);
+        rjs_set_function_name(rt, value, ename, NULL);
 
         r = class_state_add_element(rt, s, RJS_CLASS_ELEMENT_STATIC_PRIV_METHOD, ename, value);
         break;
-- 
2.43.0


From 23ea154ddb6dfedcb069fe05714fa49b32c343d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 094/127] fix: await in an async arrow function is not
 contained by the outer code

---
 src/lib/rjs_parser.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 7723f1b..e3d9bc6 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -848,6 +848,22 @@ contains_list_pop (RJS_Runtime *rt, RJS_Bool join)
     parser->contains_list_stack = bot;
 }
 
+/*Remove the nodes which are not contained by the outer code from the arrow function's contains list.*/
+static void
+contains_list_leave_arrow_body (RJS_Runtime *rt)
+{
+    RJS_Parser               *parser = rt->parser;
+    RJS_AstContainsListStack *cls    = parser->contains_list_stack;
+    RJS_Ast                  *n, *nn;
+
+    rjs_list_foreach_safe_c(&cls->list, n, nn, RJS_Ast, ln) {
+        if ((n->type == RJS_AST_AwaitExprRef)
+                || (n->type == RJS_AST_YieldExprRef)
+                || (n->type == RJS_AST_AwaitRef))
+            rjs_list_remove(&n->ln);
+    }
+}
+
 /*Add a node to the contains list.*/
 static void
 contains_list_add (RJS_Runtime *rt, RJS_AstType type, RJS_Location *loc)
@@ -4502,6 +4518,7 @@ parse_arrow_function (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vl)
     RJS_Value      *tmp1      = rjs_value_stack_push(rt);
     RJS_Value      *tmp2      = rjs_value_stack_push(rt);
     RJS_Bool        il_pushed = RJS_FALSE;
+    RJS_Bool        cl_pushed = RJS_FALSE;
     RJS_Token      *tok;
     RJS_Result      r;
     RJS_Ast        *ast;
@@ -4544,6 +4561,9 @@ parse_arrow_function (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vl)
     if (ast->type == RJS_AST_AsyncArrowParams)
         parser->flags |= RJS_PARSE_FL_AWAIT;
 
+    contains_list_push(rt);
+    cl_pushed = RJS_TRUE;
+
     tok = get_token(rt);
     unget_token(rt);
 
@@ -4578,6 +4598,11 @@ end:
     rjs_value_stack_restore(rt, top);
     parser->flags = old_flags;
 
+    if (cl_pushed) {
+        contains_list_leave_arrow_body(rt);
+        contains_list_pop(rt, RJS_TRUE);
+    }
+
     if (il_pushed)
         no_strict_list_pop(rt, RJS_TRUE, RJS_FALSE);
 
-- 
2.43.0


From d2343200484c9f9cd6c85d3aa4006ea44182e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 095/127] fix: head of a for statement must not inherit the in
 flag of an outer expression

---
 src/lib/rjs_parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index e3d9bc6..d91942d 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6432,6 +6432,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     RJS_Token      *tok, *ntok;
     RJS_AstForStmt *stmt        = NULL;
     RJS_Parser     *parser      = rt->parser;
+    int             old_flags   = parser->flags;
     RJS_Result      r           = RJS_ERR;
     RJS_Bool        is_decl     = RJS_FALSE;
     RJS_Bool        is_async_of = RJS_FALSE;
@@ -6466,6 +6467,9 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     if ((r = get_token_expect(rt, RJS_TOKEN_lparenthese)) == RJS_ERR)
         goto end;
 
+    /*The statement may be in an expression with "in" flag.*/
+    parser->flags &= ~RJS_PARSE_FL_IN;
+
     tok = get_token(rt);
     if (tok->type == RJS_TOKEN_semicolon) {
         unget_token(rt);
@@ -6522,6 +6526,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
         }
     }
 
+    parser->flags = old_flags;
+
     if (is_decl) {
         RJS_AstList *l = ast_get(rt, &stmt->init);
 
@@ -6647,6 +6653,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
     r = RJS_OK;
 end:
+    parser->flags = old_flags;
     if (stmt) {
         if (parser->decl_stack) {
             if (parser->decl_stack == stmt->decl)
-- 
2.43.0


From 8b1dc3933d04539cd04b0f8839cdfbe617a07bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 096/127] fix: field initializers do not inherit yield and
 await of the outer function

---
 src/lib/rjs_parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index d91942d..1197272 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -8188,9 +8188,14 @@ parse_class_element (RJS_Runtime *rt, RJS_Bool is_static, RJS_AstClass *c)
 
             func->flags |= RJS_AST_FUNC_FL_CLASS_FIELD_INIT;
 
+            /*"yield" and "await" of the outer function cannot be used in the initializer.*/
+            parser->flags &= ~(RJS_PARSE_FL_AWAIT|RJS_PARSE_FL_YIELD);
+
             es = ast_new(rt, vstmt, RJS_AST_ReturnStmt, &func->ast.location);
             r  = parse_expr_in_prio(rt, PRIO_ASSI, &es->expr);
 
+            parser->flags = old_flags;
+
             contains_list_check(rt, CONTAINS_FL_SUPER_CALL|CONTAINS_FL_ARGUMENTS);
 
             func_pop(rt);
-- 
2.43.0


From 73784646bedcdcf3220b70561a4b83522caf5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 097/127] fix: parenthesized targets in destructuring
 assignments; assignment patterns cannot become parameters

---
 src/lib/rjs_parser.c | 77 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 70 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 1197272..51e9958 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -2927,6 +2927,54 @@ end:
     return r;
 }
 
+/*Get the identifier reference if the binding is an identifier without parentheses.*/
+static RJS_AstId*
+binding_id_get (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_Ast *ast = ast_get(rt, v);
+
+    return (ast && (ast->type == RJS_AST_Id)) ? (RJS_AstId*)ast : NULL;
+}
+
+/*Check if all the targets in the converted pattern are binding identifiers.*/
+static RJS_Bool
+check_binding_pattern (RJS_Runtime *rt, RJS_Ast *ast)
+{
+    switch (ast->type) {
+    case RJS_AST_Id: {
+        RJS_AstId *id = (RJS_AstId*)ast;
+
+        check_binding_identifier(rt, &ast->location, &id->identifier->value);
+        break;
+    }
+    case RJS_AST_ArrayBinding:
+    case RJS_AST_ObjectBinding: {
+        RJS_AstList *l = (RJS_AstList*)ast;
+        RJS_Ast     *e, *b;
+
+        rjs_list_foreach_c(&l->list, e, RJS_Ast, ln) {
+            if (e->type == RJS_AST_BindingElem)
+                b = ast_get(rt, &((RJS_AstBindingElem*)e)->binding);
+            else if (e->type == RJS_AST_BindingProp)
+                b = ast_get(rt, &((RJS_AstBindingProp*)e)->binding);
+            else if (e->type == RJS_AST_Rest)
+                b = ast_get(rt, &((RJS_AstRest*)e)->binding);
+            else
+                continue;
+
+            if (b && !check_binding_pattern(rt, b))
+                return RJS_FALSE;
+        }
+        break;
+    }
+    default:
+        parse_error(rt, &ast->location, _("illegal binding"));
+        return RJS_FALSE;
+    }
+
+    return RJS_TRUE;
+}
+
 /*Convert the assignment to binding and initializer.*/
 static RJS_Result
 assi_to_binding_init (RJS_Runtime *rt, RJS_AstBinaryExpr *assi, RJS_Value *b, RJS_Value *init, RJS_Bool is_binding)
@@ -3009,7 +3057,7 @@ array_to_binding (RJS_Runtime *rt, RJS_AstList *a, RJS_Value *b, RJS_Bool is_bin
             if ((r = expr_to_binding_init(rt, ast, &be->binding, &be->init, is_binding)) == RJS_ERR)
                 goto end;
 
-            id   = id_get(rt, &be->binding);
+            id   = binding_id_get(rt, &be->binding);
             init = ast_get(rt, &be->init);
 
             if (init && id)
@@ -3071,7 +3119,7 @@ object_to_binding (RJS_Runtime *rt, RJS_AstList *o, RJS_Value *b, RJS_Bool is_bi
                 id_new(rt, &bp->binding, &ast->location, &ve->ve->value);
             }
 
-            id   = id_get(rt, &bp->binding);
+            id   = binding_id_get(rt, &bp->binding);
             init = ast_get(rt, &bp->init);
             if (init && id)
                 func_set_name(rt, init, &id->ast.location, &id->identifier->value);
@@ -3109,8 +3157,24 @@ expr_to_binding (RJS_Runtime *rt, RJS_Ast *e, RJS_Value *b, RJS_Bool is_binding)
     case RJS_AST_MemberExpr:
     case RJS_AST_SuperMemberExpr:
     case RJS_AST_PrivMemberExpr:
+    case RJS_AST_ParenthesesExpr:
+        rjs_value_set_gc_thing(rt, b, e);
+
+        if (is_binding) {
+            parse_error(rt, &e->location, _("illegal binding"));
+            r = RJS_ERR;
+            goto end;
+        }
+
+        check_simple_assi_target(rt, b);
+        break;
     case RJS_AST_ArrayBinding:
     case RJS_AST_ObjectBinding:
+        if (is_binding && !check_binding_pattern(rt, e)) {
+            r = RJS_ERR;
+            goto end;
+        }
+
         rjs_value_set_gc_thing(rt, b, e);
         break;
     case RJS_AST_Array: {
@@ -4431,12 +4495,11 @@ expr_to_lh (RJS_Runtime *rt, RJS_Value *vi, RJS_Value *vo)
         r = object_to_binding(rt, l, vo, RJS_FALSE);
         break;
     }
-    case RJS_AST_ParenthesesExpr: {
-        RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)ast;
-
-        r = expr_to_lh(rt, &ue->operand, vo);
+    case RJS_AST_ParenthesesExpr:
+        check_simple_assi_target(rt, vi);
+        rjs_value_copy(rt, vo, vi);
+        r = RJS_OK;
         break;
-    }
     default:
         rjs_value_copy(rt, vo, vi);
         r = RJS_OK;
-- 
2.43.0


From 320dea2fc0ea061de8f7204d1c75096031ec7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 098/127] fix: clearing an abandoned generator's native stack
 must not touch stacked values

---
 src/lib/rjs_native_stack.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 20aefca..c41d6e6 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1727,16 +1727,34 @@ rjs_native_stack_clear (RJS_Runtime *rt, RJS_NativeStack *ns)
     rt->rb.curr_native_stack = ns;
 
     rjs_vector_foreach(&ns->state, i, s) {
-        /*Set the iterator done flag to avoid "close" be called*/
-        if ((s->type == RJS_STATE_FOR_IN)
-                || (s->type == RJS_STATE_FOR_OF)
-                || (s->type == RJS_STATE_ARRAY_ASSI)) {
+        /*Only release the resource, the stacked items can not be used any more.*/
+        switch (s->type) {
+        case RJS_STATE_ARRAY:
+        case RJS_STATE_LEX_ENV:
+            continue;
+        case RJS_STATE_FOR_IN:
+        case RJS_STATE_FOR_OF:
+        case RJS_STATE_ARRAY_ASSI:
+            /*Set the iterator done flag to avoid "close" be called*/
             if (s->s.s_iter.iterator)
                 s->s.s_iter.iterator->done = RJS_TRUE;
+            break;
+#if ENABLE_PRIV_NAME
+        case RJS_STATE_CLASS:
+            s->s.s_class.priv_env = NULL;
+            break;
+#endif /*ENABLE_PRIV_NAME*/
+        default:
+            break;
         }
 
+        /*Keep the value stack unchanged.*/
+        s->sp = rjs_value_stack_save(rt);
+
         rjs_state_deinit(rt, s, NULL, 0, NULL);
     }
 
+    ns->state.item_num = 0;
+
     rt->rb.curr_native_stack = curr_ns;
 }
-- 
2.43.0


From 79cf477c800c201aaf3b062df4a2bafbdbfe6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 099/127] fix: rest element of an array pattern does not close
 the iterator if reading the value throws

---
 src/lib/rjs_native_stack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index c41d6e6..3f045ed 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -463,8 +463,10 @@ rjs_iter_state_rest (RJS_Runtime *rt, RJS_Value *rv)
             break;
         }
 
-        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR)
+        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR) {
+            iter->done = RJS_TRUE;
             goto end;
+        }
 
         if ((r = rjs_create_data_property_or_throw_index(rt, rv, i, item)) == RJS_ERR)
             goto end;
-- 
2.43.0


From 8fde25a9527ea2eadea9a690fefe57091415f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 100/127] fix: stale error flag makes iterator close lose
 errors; rejections of promise combinators propagate errors and keep the
 returned value

---
 src/lib/include/rjs_promise.h           |  9 +--
 src/lib/rjs_async_function_object_inc.c | 26 +++------
 src/lib/rjs_bc_call.c                   | 21 +++++--
 src/lib/rjs_generator_opt.c             |  6 +-
 src/lib/rjs_promise_object_inc.c        | 73 ++++++++++---------------
 5 files changed, 61 insertions(+), 74 deletions(-)

diff --git a/src/lib/include/rjs_promise.h b/src/lib/include/rjs_promise.h
index cf604a7..a5579db 100644
--- a/src/lib/include/rjs_promise.h
+++ b/src/lib/include/rjs_promise.h
@@ -99,13 +99,14 @@ rjs_perform_proimise_then (RJS_Runtime *rt, RJS_Value *promise, RJS_Value *fulfi
 /**
  * Invoke reject if arupt.
  * \param rt The current runtime.
- * \param r The result.
+ * \param[inout] r The result. If the promise is rejected, it is the result of the rejection.
  * \param pc The promise capability.
  * \param rv The return value.
- * \return Return r.
+ * \retval RJS_TRUE The result is abrupt and the promise is rejected.
+ * \retval RJS_FALSE The result is not abrupt.
  */
-RJS_INTERNAL RJS_Result
-if_abrupt_reject_promise (RJS_Runtime *rt, RJS_Result r, RJS_PromiseCapability *pc, RJS_Value *rv);
+RJS_INTERNAL RJS_Bool
+if_abrupt_reject_promise (RJS_Runtime *rt, RJS_Result *r, RJS_PromiseCapability *pc, RJS_Value *rv);
 
 #ifdef __cplusplus
 }
diff --git a/src/lib/rjs_async_function_object_inc.c b/src/lib/rjs_async_function_object_inc.c
index e10a77f..9453a66 100644
--- a/src/lib/rjs_async_function_object_inc.c
+++ b/src/lib/rjs_async_function_object_inc.c
@@ -135,17 +135,17 @@ async_from_sync_iterator_continuation (RJS_Runtime *rt, RJS_Value *result,
     RJS_AsyncFromSyncIterFunc *afsf;
 
     r = rjs_iterator_complete(rt, result);
-    if (if_abrupt_reject_promise(rt, r, pc, rv) == RJS_ERR)
+    if (if_abrupt_reject_promise(rt, &r, pc, rv))
         goto end;
 
     done = r;
 
     r = rjs_iterator_value(rt, result, value);
-    if (if_abrupt_reject_promise(rt, r, pc, rv) == RJS_ERR)
+    if (if_abrupt_reject_promise(rt, &r, pc, rv))
         goto end;
 
     r = rjs_promise_resolve(rt, rjs_o_Promise(realm), value, wrapper);
-    if (if_abrupt_reject_promise(rt, r, pc, rv) == RJS_ERR)
+    if (if_abrupt_reject_promise(rt, &r, pc, rv))
         goto end;
 
     RJS_NEW(rt, afsf);
@@ -189,10 +189,8 @@ static RJS_NF(AsyncFromSyncIteratorPrototype_next)
     else
         r = rjs_iterator_next(rt, &afs->sync_iter, NULL, res);
         
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = async_from_sync_iterator_continuation(rt, res, &pc, rv);
 end:
@@ -222,10 +220,8 @@ static RJS_NF(AsyncFromSyncIteratorPrototype_return)
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
     r = rjs_get_method(rt, &afs->sync_object, rjs_pn_return(rt), fn);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     if (rjs_value_is_undefined(rt, fn)) {
         rjs_create_iter_result_object(rt, v, RJS_TRUE, res);
@@ -240,10 +236,8 @@ static RJS_NF(AsyncFromSyncIteratorPrototype_return)
     else
         r = rjs_call(rt, fn, &afs->sync_object, NULL, 0, res);
 
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     if (!rjs_value_is_object(rt, res)) {
         rjs_type_error_new(rt, res, _("the value is not an object"));
@@ -281,10 +275,8 @@ static RJS_NF(AsyncFromSyncIteratorPrototype_throw)
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
     r = rjs_get_method(rt, &afs->sync_object, rjs_pn_throw(rt), fn);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     if (rjs_value_is_undefined(rt, fn)) {
         rjs_call(rt, pc.reject, rjs_v_undefined(rt), v, 1, NULL);
@@ -294,10 +286,8 @@ static RJS_NF(AsyncFromSyncIteratorPrototype_throw)
     }
 
     r = rjs_call(rt, fn, &afs->sync_object, v, 1, res);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     if (!rjs_value_is_object(rt, res)) {
         rjs_type_error_new(rt, res, _("the value is not an object"));
diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 8fa18bb..0a72f9c 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -48,14 +48,18 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
 
     ASYNC_OP_DEBUG();
 
+    /*The original error overrides the result of "return".*/
+    if (ac->i0 == RJS_ERR)
+        return rjs_throw(rt, &ac->v0);
+
     if ((r = rjs_await_async_iterator_close(rt, type, iv, rv)) == RJS_ERR)
         return r;
 
-    r = ac->i0;
-    if (r == RJS_ERR)
-        rjs_throw(rt, &ac->v0);
+    /*Keep the return value of the function.*/
+    if (ac->i0 == RJS_RETURN)
+        rjs_value_copy(rt, rv, &((RJS_ScriptContext*)ac)->retv);
 
-    return r;
+    return ac->i0;
 }
 
 #else /*!define ENABLE_ASYNC*/
@@ -1147,6 +1151,7 @@ end:
             break;\
         }\
     }\
+    rt->error_flag = RJS_FALSE;\
     if ((r = rjs_state_pop_await(rt, rjs_await_async_iterator_close, 0, NULL)) == RJS_ERR)\
         goto error;\
     if (r == RJS_FALSE) {\
@@ -1183,7 +1188,9 @@ end:
 #define bc_finally()\
     RJS_State *s = rjs_state_top(rt);\
     assert(s->type == RJS_STATE_TRY);\
-    s->s.s_try.state = RJS_TRY_STATE_FINALLY;
+    s->s.s_try.state = RJS_TRY_STATE_FINALLY;\
+    /*The error is stored in the state now.*/\
+    rt->error_flag = RJS_FALSE;
 
 #define bc_try_end()\
     RJS_State *s = rjs_state_top(rt);\
@@ -1372,6 +1379,10 @@ error:
                 assert(0);
             }
         } else {
+            /*Only the error of this completion can override the errors of "return".*/
+            if (r != RJS_ERR)
+                rt->error_flag = RJS_FALSE;
+
             if ((r1 = rjs_state_pop_await(rt, await_pop_async_iter_state, r, &rt->error)) == RJS_FALSE) {
                 r = RJS_SUSPEND;
                 goto end;
diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 2b887a9..4782e9c 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -791,7 +791,7 @@ rjs_async_generator_next (RJS_Runtime *rt, RJS_Value *agv, RJS_Value *v, RJS_Val
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
     r = async_generator_validate(rt, agv, rjs_s_empty(rt));
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR)
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
 
     ag = (RJS_AsyncGenerator*)rjs_value_get_object(rt, agv);
@@ -840,7 +840,7 @@ rjs_async_generator_return (RJS_Runtime *rt, RJS_Value *agv, RJS_Value *v, RJS_V
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
     r = async_generator_validate(rt, agv, rjs_s_empty(rt));
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR)
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
 
     ag = (RJS_AsyncGenerator*)rjs_value_get_object(rt, agv);
@@ -886,7 +886,7 @@ rjs_async_generator_throw (RJS_Runtime *rt, RJS_Value *agv, RJS_Value *v, RJS_Va
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
     r = async_generator_validate(rt, agv, rjs_s_empty(rt));
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR)
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
 
     ag = (RJS_AsyncGenerator*)rjs_value_get_object(rt, agv);
diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 5f6849a..4131613 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -58,20 +58,29 @@ get_promise_resolve (RJS_Runtime *rt, RJS_Value *c, RJS_Value *resolve)
 /**
  * Invoke reject if arupt.
  * \param rt The current runtime.
- * \param r The result.
+ * \param[inout] r The result. If the promise is rejected, it is the result of the rejection.
  * \param pc The promise capability.
  * \param rv The return value.
- * \return Return r.
+ * \retval RJS_TRUE The result is abrupt and the promise is rejected.
+ * \retval RJS_FALSE The result is not abrupt.
  */
-RJS_Result
-if_abrupt_reject_promise (RJS_Runtime *rt, RJS_Result r, RJS_PromiseCapability *pc, RJS_Value *rv)
+RJS_Bool
+if_abrupt_reject_promise (RJS_Runtime *rt, RJS_Result *r, RJS_PromiseCapability *pc, RJS_Value *rv)
 {
-    if (r == RJS_ERR) {
-        rjs_call(rt, pc->reject, rjs_v_undefined(rt), &rt->error, 1, NULL);
-        rjs_value_copy(rt, rv, pc->promise);
+    if (*r == RJS_ERR) {
+        size_t     top = rjs_value_stack_save(rt);
+        RJS_Value *err = rjs_value_stack_push(rt);
+
+        rjs_catch(rt, err);
+
+        if ((*r = rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL)) == RJS_OK)
+            rjs_value_copy(rt, rv, pc->promise);
+
+        rjs_value_stack_restore(rt, top);
+        return RJS_TRUE;
     }
 
-    return r;
+    return RJS_FALSE;
 }
 
 /**Promise all task data.*/
@@ -312,26 +321,20 @@ static RJS_NF(Promise_all)
         goto end;
 
     r = get_promise_resolve(rt, thiz, resolve);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = perform_promise_all(rt, &iterator_rec, thiz, &pc, resolve, rv);
     if (r == RJS_ERR) {
         if (!iterator_rec.done)
             rjs_iterator_close(rt, &iterator_rec);
 
-        if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
+        if (if_abrupt_reject_promise(rt, &r, &pc, rv))
             goto end;
-        }
     }
 
     r = RJS_OK;
@@ -509,26 +512,20 @@ static RJS_NF(Promise_allSettled)
         goto end;
 
     r = get_promise_resolve(rt, thiz, resolve);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = perform_promise_all_settled(rt, &iterator_rec, thiz, &pc, resolve, rv);
     if (r == RJS_ERR) {
         if (!iterator_rec.done)
             rjs_iterator_close(rt, &iterator_rec);
 
-        if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
+        if (if_abrupt_reject_promise(rt, &r, &pc, rv))
             goto end;
-        }
     }
 
     r = RJS_OK;
@@ -671,26 +668,20 @@ static RJS_NF(Promise_any)
         goto end;
 
     r = get_promise_resolve(rt, thiz, resolve);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = perform_promise_any(rt, &iterator_rec, thiz, &pc, resolve, rv);
     if (r == RJS_ERR) {
         if (!iterator_rec.done)
             rjs_iterator_close(rt, &iterator_rec);
 
-        if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
+        if (if_abrupt_reject_promise(rt, &r, &pc, rv))
             goto end;
-        }
     }
 
     r = RJS_OK;
@@ -766,26 +757,20 @@ static RJS_NF(Promise_race)
         goto end;
 
     r = get_promise_resolve(rt, thiz, resolve);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (if_abrupt_reject_promise(rt, &r, &pc, rv))
         goto end;
-    }
 
     r = perform_promise_race(rt, &iterator_rec, thiz, &pc, resolve, rv);
     if (r == RJS_ERR) {
         if (!iterator_rec.done)
             rjs_iterator_close(rt, &iterator_rec);
 
-        if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
+        if (if_abrupt_reject_promise(rt, &r, &pc, rv))
             goto end;
-        }
     }
 
     r = RJS_OK;
-- 
2.43.0


From 4a67fb4d5cfbe9b86b28b366b1c94d387369f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:58 +0000
Subject: [PATCH 101/127] fix: iterator close keeps the pending error if the
 return method clears the error flag

---
 src/lib/rjs_iterator.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_iterator.c b/src/lib/rjs_iterator.c
index 0d57001..079234d 100644
--- a/src/lib/rjs_iterator.c
+++ b/src/lib/rjs_iterator.c
@@ -274,7 +274,7 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
 
     is_err = rt->error_flag;
     if (is_err)
-        rjs_value_copy(rt, err, &rt->error);
+        rjs_catch(rt, err);
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -294,8 +294,10 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
 
     r = RJS_OK;
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
@@ -326,7 +328,7 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
 
     is_err = rt->error_flag;
     if (is_err)
-        rjs_value_copy(rt, err, &rt->error);
+        rjs_catch(rt, err);
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -339,11 +341,17 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
     if ((r = rjs_call(rt, ret, iter->iterator, NULL, 0, res)) == RJS_ERR)
         goto end;
 
-    if (op)
+    if (op) {
+        if (is_err)
+            rjs_value_copy(rt, &rt->error, err);
+
         r = rjs_await(rt, res, op, ip, vp);
+    }
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From 97b73bb354e2d03bc0d3c6228654391529a0ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 102/127] fix: anonymous functions in parameters of arrow
 functions get their property names

---
 src/lib/rjs_bc_gen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index eb9cab7..db81a9b 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1899,7 +1899,9 @@ is_anonymous_function (RJS_Runtime *rt, RJS_Value *v)
     if (ast->type == RJS_AST_FuncExpr) {
         RJS_AstFuncRef *fe = (RJS_AstFuncRef*)ast;
 
-        if (!fe->func->name)
+        /*The empty name is added if the function has been generated before.*/
+        if (!fe->func->name
+                || rjs_string_equal(rt, &fe->func->name->value, rjs_s_empty(rt)))
             return RJS_TRUE;
     } else if (ast->type == RJS_AST_ClassExpr) {
         RJS_AstClassRef *ce = (RJS_AstClassRef*)ast;
-- 
2.43.0


From 748ee4ebf8baf8188aadd1030db83929a24e168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:10 +0000
Subject: [PATCH 103/127] fix: yield and await stay keywords after a concise
 method of an object literal

---
 src/lib/rjs_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 51e9958..aa13beb 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3607,6 +3607,9 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
 
                             unget_token(rt);
                             r = parse_method_params_body(rt, RJS_TRUE, m, 0);
+
+                            parser->flags = old_flags;
+
                             if (r == RJS_OK)
                                 rjs_list_append(&o->list, &m->ast.ln);
                         } else if (tok->type == RJS_TOKEN_colon) {
-- 
2.43.0


From 5698708d29b67bbd45b340db3b017b38619c7d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:07 +0000
Subject: [PATCH 104/127] fix: Promise.allSettled element functions share their
 called flag and return the capability's result

---
 src/lib/rjs_promise_object_inc.c | 35 +++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 4131613..017d526 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -96,6 +96,7 @@ typedef struct {
 
 /**Promise single task data.*/
 typedef struct {
+    int             ref;    /**< Reference count.*/
     RJS_PromiseAll *all;    /**< All reference*/
     size_t          index;  /**< The current promise index.*/
     RJS_Bool        called; /**< The function is already called.*/
@@ -164,10 +165,14 @@ promise_single_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_PromiseSingle *s = ptr;
 
-    if (s->all)
-        promise_all_free(rt, s->all);
+    s->ref --;
+
+    if (s->ref == 0) {
+        if (s->all)
+            promise_all_free(rt, s->all);
 
-    RJS_DEL(rt, s);
+        RJS_DEL(rt, s);
+    }
 }
 
 /*Allocate a new promise single task data.*/
@@ -178,6 +183,7 @@ promise_single_new (RJS_Runtime *rt, RJS_PromiseAll *all, size_t index)
 
     RJS_NEW(rt, s);
 
+    s->ref    = 1;
     s->called = RJS_FALSE;
     s->index  = index;
 
@@ -233,6 +239,24 @@ promise_all_func_new (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, size_t i
     return RJS_OK;
 }
 
+/*Create the second function of a promise, only one of the 2 functions takes effect.*/
+static RJS_Result
+promise_all_func_pair (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, RJS_Value *first)
+{
+    RJS_Realm         *realm  = rjs_realm_current(rt);
+    RJS_PromiseSingle *single = rjs_native_object_get_data(rt, first);
+    RJS_Result         r;
+
+    r = rjs_create_native_function(rt, NULL, nf, 1, rjs_s_empty(rt), realm, NULL, NULL, v);
+    if (r == RJS_ERR)
+        return r;
+
+    single->ref ++;
+    rjs_native_object_set_data(rt, v, NULL, single, promise_single_scan, promise_single_free);
+
+    return RJS_OK;
+}
+
 /*Perform promise all operation.*/
 static RJS_Result
 perform_promise_all (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
@@ -378,7 +402,6 @@ static RJS_NF(promise_all_settled_resolve)
         r = RJS_OK;
     }
 
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
@@ -417,7 +440,6 @@ static RJS_NF(promise_all_settled_reject)
         r = RJS_OK;
     }
 
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
@@ -476,7 +498,7 @@ perform_promise_all_settled (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *con
         if ((r = promise_all_func_new(rt, fulfill, promise_all_settled_resolve, index, all)) == RJS_ERR)
             goto end;
 
-        if ((r = promise_all_func_new(rt, reject, promise_all_settled_reject, index, all)) == RJS_ERR)
+        if ((r = promise_all_func_pair(rt, reject, promise_all_settled_reject, fulfill)) == RJS_ERR)
             goto end;
 
         all->left ++;
@@ -569,7 +591,6 @@ static RJS_NF(promise_any_reject)
         r = RJS_OK;
     }
 
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From c8719a36b6c180981698c6492e3a2d906c0189a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 105/127] fix: requests queued on a completed async generator
 resolve with undefined

---
 src/lib/rjs_generator_opt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 4782e9c..d66038e 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -432,7 +432,11 @@ rjs_async_generator_drain_queue (RJS_Runtime *rt, RJS_Value *gv)
             async_generator_await_return(rt, gv);
             break;
         } else {
-            rjs_async_generator_complete_step(rt, gv, agr->type, &agr->value, RJS_TRUE, NULL);
+            RJS_Value *v = (agr->type == RJS_GENERATOR_REQUEST_NEXT)
+                    ? rjs_v_undefined(rt)
+                    : &agr->value;
+
+            rjs_async_generator_complete_step(rt, gv, agr->type, v, RJS_TRUE, NULL);
         }
     }
 
-- 
2.43.0


From 723ca69a1962eeaf922bf444e9a2f98a0cd7aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:02 +0000
Subject: [PATCH 106/127] fix: tail calls use a fresh function environment;
 async and generator functions do not use tail calls

---
 src/lib/rjs_bc_gen.c       | 15 +++++++++++++--
 src/lib/rjs_native_stack.c | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index db81a9b..bb43d6d 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -2642,6 +2642,7 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
     int            rid;
     RJS_Ast       *ast;
     RJS_BcCommand *cmd;
+    RJS_Bool       tco = bg->tco;
 
     rid = bc_reg_add(rt, bg);
 
@@ -2666,9 +2667,19 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
             ast = RJS_CONTAINER_OF(list->list.prev, RJS_Ast, ln);
         }
 
-        if ((ast->type == RJS_AST_CallExpr) && bg->tco) {
+        /*The result of an async or generator function is not the result of the call.*/
+#if ENABLE_ASYNC
+        if (bg->func_ast->flags & RJS_AST_FUNC_FL_ASYNC)
+            tco = RJS_FALSE;
+#endif /*ENABLE_ASYNC*/
+#if ENABLE_GENERATOR
+        if (bg->func_ast->flags & RJS_AST_FUNC_FL_GENERATOR)
+            tco = RJS_FALSE;
+#endif /*ENABLE_GENERATOR*/
+
+        if ((ast->type == RJS_AST_CallExpr) && tco) {
             bc_gen_call_expr(rt, bg, (RJS_AstCall*)ast, rid, RJS_TRUE);
-        } else if ((ast->type == RJS_AST_Template) && bg->tco) {
+        } else if ((ast->type == RJS_AST_Template) && tco) {
             bc_gen_templ_expr(rt, bg, (RJS_AstTemplate*)ast, rid, RJS_TRUE);
         } else {
 #if ENABLE_ASYNC && ENABLE_GENERATOR
diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 3f045ed..2dbf1fe 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1165,9 +1165,12 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
     assert(s->type == RJS_STATE_CALL);
 
     if ((flags & RJS_CALL_FL_TCO)
-            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)) {
+            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)
+            && !(((RJS_ScriptContext*)ctxt)->script_func->flags
+                    & RJS_FUNC_FL_CLASS_CONSTR)) {
         /*Tail call optimize.*/
         RJS_ScriptContext *sc = (RJS_ScriptContext*)ctxt;
+        RJS_Environment   *env;
         RJS_Value         *args;
         size_t             argc;
 
@@ -1188,13 +1191,14 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
         sc->args = args;
         sc->argc = argc;
 
-        /*Bind this argument.*/
-        rt->env         = sc->scb.lex_env;
-        sc->scb.lex_env = sc->scb.var_env;
+        /*Create a new environment, the old one may be captured by closures or arguments objects.*/
+        rjs_function_env_new(rt, &rt->env, &ctxt->function, rjs_v_undefined(rt));
+
+        env             = rt->env;
+        sc->scb.lex_env = env;
 
-        rjs_function_env_clear(rt, sc->scb.var_env);
+        /*Bind this argument.*/
         rjs_ordinary_call_bind_this(rt, &ctxt->function, s->s.s_call.thiz);
-        sc->scb.lex_env = rt->env;
 
         /*Pop up the states.*/
         while (sp < rt->rb.curr_native_stack->state.item_num) {
@@ -1202,6 +1206,9 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
                 return r;
         }
 
+        sc->scb.var_env = env;
+        sc->scb.lex_env = env;
+
         tco = RJS_TRUE;
         r   = RJS_FALSE;
 #if ENABLE_EVAL
-- 
2.43.0


From 504f50945814ff3af09cb51f82cd786f96e42f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 107/127] fix: \u{} is not an escape sequence

---
 src/lib/rjs_lex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index a0ce283..28f7129 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -247,6 +247,8 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
 
     c = lex_get_uc(rt, lex);
     if (c == '{') {
+        RJS_Bool has_digit = RJS_FALSE;
+
         lex_append_uc(rt, lex, c);
 
         while (1) {
@@ -260,13 +262,14 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
                 break;
             }
 
-            if (c == '}') {
+            if ((c == '}') && has_digit) {
                 lex_append_uc(rt, lex, c);
                 break;
             }
 
             if ((n = lex_hex_char(rt, lex, c, is_templ)) < 0)
                 return -1;
+            has_digit = RJS_TRUE;
             lex_append_uc(rt, lex, c);
 
             v <<= 4;
-- 
2.43.0


From 2711eb9fa8edb7126928e125168679ea8cc86dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 108/127] fix: the conditional and logical expressions with
 constant operands yield values, not references

---
 src/lib/rjs_parser.c | 45 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index aa13beb..50dd3cd 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -4027,6 +4027,26 @@ end:
     return r;
 }
 
+/*Check if the expression is a constant.*/
+static RJS_Bool
+expr_is_constant (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_Ast *ast = ast_get(rt, v);
+
+    if (!ast)
+        return RJS_FALSE;
+
+    switch (ast->type) {
+    case RJS_AST_ValueExpr:
+    case RJS_AST_True:
+    case RJS_AST_False:
+    case RJS_AST_Null:
+        return RJS_TRUE;
+    default:
+        return RJS_FALSE;
+    }
+}
+
 /*Parse logic and expression.*/
 static RJS_Result
 parse_logic_and_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *vop1)
@@ -4052,9 +4072,11 @@ parse_logic_and_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *
         b = RJS_FALSE;
     }
 
-    if (b == RJS_TRUE) {
+    /*The result is a value, only a constant can be used instead of the expression.*/
+    if ((b == RJS_TRUE) && expr_is_constant(rt, re)) {
         rjs_value_copy(rt, ve, re);
     } else if (b == RJS_FALSE) {
+        check_expr(rt, re);
         rjs_value_copy(rt, ve, vop1);
     } else {
         RJS_AstBinaryExpr *be;
@@ -4098,9 +4120,11 @@ parse_logic_or_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *v
         b = RJS_FALSE;
     }
 
+    /*The result is a value, only a constant can be used instead of the expression.*/
     if (b == RJS_TRUE) {
+        check_expr(rt, re);
         rjs_value_copy(rt, ve, vop1);
-    } else if (b == RJS_FALSE) {
+    } else if ((b == RJS_FALSE) && expr_is_constant(rt, re)) {
         rjs_value_copy(rt, ve, re);
     } else {
         RJS_AstBinaryExpr *be;
@@ -4141,15 +4165,13 @@ parse_ques_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *vop1)
                 || rjs_value_is_null(rt, &v->ve->value);
     } else if (ast->type == RJS_AST_Null) {
         b = RJS_TRUE;
-    } else if (ast->type == RJS_AST_Id) {
-        RJS_AstId *id = (RJS_AstId*)ast;
-
-        b = rjs_string_equal(rt, &id->identifier->value, rjs_s_undefined(rt));
     }
 
-    if (b == RJS_TRUE) {
+    /*The result is a value, only a constant can be used instead of the expression.*/
+    if ((b == RJS_TRUE) && expr_is_constant(rt, re)) {
         rjs_value_copy(rt, ve, re);
-    } else if (r == RJS_FALSE) {
+    } else if (b == RJS_FALSE) {
+        check_expr(rt, re);
         rjs_value_copy(rt, ve, vop1);
     } else {
         RJS_AstBinaryExpr *be;
@@ -4456,9 +4478,12 @@ parse_cond_expr (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vc)
         b = RJS_FALSE;
     }
 
-    if (b == RJS_TRUE) {
+    /*The result is a value, only a constant can be used instead of the expression.*/
+    if ((b == RJS_TRUE) && expr_is_constant(rt, le)) {
+        check_expr(rt, re);
         rjs_value_copy(rt, ve, le);
-    } else if (b == RJS_FALSE) {
+    } else if ((b == RJS_FALSE) && expr_is_constant(rt, re)) {
+        check_expr(rt, le);
         rjs_value_copy(rt, ve, re);
     } else {
         ce  = ast_new(rt, ve, RJS_AST_CondExpr, &ast->location);
-- 
2.43.0


From 3c30eeba9df69160568a18854fd43eec681c8ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 109/127] fix: a switch statement without end does not parse
 for ever

---
 src/lib/rjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 50dd3cd..8a8fed6 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6769,6 +6769,7 @@ parse_switch_stmt_list (RJS_Runtime *rt, RJS_AstCase *cc)
     while (loop) {
         tok = get_token(rt);
         if ((tok->type == RJS_TOKEN_rbrace)
+                || (tok->type == RJS_TOKEN_END)
                 || token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_case)
                 || token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_default)) {
             unget_token(rt);
-- 
2.43.0


From 459b04797b6e07ce806bbf6232f6e6a142bc6151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 110/127] fix: moving a rest parameter removes it from the old
 list first

---
 src/lib/rjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 8a8fed6..937a1a9 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3245,6 +3245,7 @@ args_to_params (RJS_Runtime *rt, RJS_Location *loc, RJS_List *al, RJS_AstType ty
                 break;
             case RJS_AST_Elision:
             case RJS_AST_Rest:
+                rjs_list_remove(&ast->ln);
                 rjs_list_append(&pl->param_list, &ast->ln);
                 break;
             case RJS_AST_SpreadExpr: {
-- 
2.43.0


From 1bf3dc09c1e99b775cc7c1c4423136dc33b774be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 111/127] fix: cover initialized names are checked in targets,
 patterns, templates and arrow parameters

---
 src/lib/rjs_parser.c | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 937a1a9..b42e0cb 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -2219,7 +2219,11 @@ check_expr_ast (RJS_Runtime *rt, RJS_Ast *ast)
     case RJS_AST_ImportExpr:
     case RJS_AST_AwaitExpr:
     case RJS_AST_OptionalExpr:
-    case RJS_AST_OptionalBase: {
+    case RJS_AST_OptionalBase:
+    case RJS_AST_PreIncExpr:
+    case RJS_AST_PreDecExpr:
+    case RJS_AST_PostIncExpr:
+    case RJS_AST_PostDecExpr: {
         RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)ast;
 
         r &= check_expr(rt, &ue->operand);
@@ -2277,9 +2281,41 @@ check_expr_ast (RJS_Runtime *rt, RJS_Ast *ast)
     case RJS_AST_QuesAssiExpr: {
         RJS_AstBinaryExpr *be = (RJS_AstBinaryExpr*)ast;
 
+        r &= check_expr(rt, &be->operand1);
         r &= check_expr(rt, &be->operand2);
         break;
     }
+    case RJS_AST_ArrayBinding:
+    case RJS_AST_ObjectBinding: {
+        RJS_AstList *l = (RJS_AstList*)ast;
+        RJS_Ast     *e;
+
+        rjs_list_foreach_c(&l->list, e, RJS_Ast, ln) {
+            if (e->type == RJS_AST_BindingElem) {
+                RJS_AstBindingElem *be = (RJS_AstBindingElem*)e;
+
+                r &= check_expr(rt, &be->binding);
+                r &= check_expr(rt, &be->init);
+            } else if (e->type == RJS_AST_BindingProp) {
+                RJS_AstBindingProp *bp = (RJS_AstBindingProp*)e;
+
+                r &= check_expr(rt, &bp->name);
+                r &= check_expr(rt, &bp->binding);
+                r &= check_expr(rt, &bp->init);
+            } else if (e->type == RJS_AST_Rest) {
+                RJS_AstRest *rest = (RJS_AstRest*)e;
+
+                r &= check_expr(rt, &rest->binding);
+            }
+        }
+        break;
+    }
+    case RJS_AST_Template: {
+        RJS_AstTemplate *templ = (RJS_AstTemplate*)ast;
+
+        r &= check_expr(rt, &templ->func);
+        break;
+    }
     case RJS_AST_CondExpr: {
         RJS_AstCondExpr *ce = (RJS_AstCondExpr*)ast;
 
@@ -3254,6 +3290,8 @@ args_to_params (RJS_Runtime *rt, RJS_Location *loc, RJS_List *al, RJS_AstType ty
                 if ((r = spread_to_rest(rt, ue, tmp, RJS_TRUE)) == RJS_ERR)
                     goto end;
 
+                check_expr(rt, &((RJS_AstRest*)ast_get(rt, tmp))->binding);
+
                 ast_list_append(rt, &pl->param_list, tmp);
                 has_rest = RJS_TRUE;
                 break;
@@ -3264,6 +3302,9 @@ args_to_params (RJS_Runtime *rt, RJS_Location *loc, RJS_List *al, RJS_AstType ty
 
                 if ((r = expr_to_binding_init(rt, ast, &be->binding, &be->init, RJS_TRUE)) == RJS_ERR)
                     goto end;
+
+                check_expr(rt, &be->binding);
+                check_expr(rt, &be->init);
                 break;
             }
             }
-- 
2.43.0


From 2f0fc395192b2d2504a49e1e7550019244167ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 112/127] fix: a private identifier cannot be the name of a
 property or a stray operand

---
 src/lib/rjs_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index b42e0cb..de99f4b 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3630,6 +3630,10 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
 
                     r = parse_class_element_name(rt, RJS_TRUE, RJS_FALSE, 0, tmp1);
 
+                    /*The private identifier cannot be the property's name.*/
+                    if ((r == RJS_OK) && !ast_get(rt, tmp1))
+                        r = RJS_ERR;
+
                     if (r == RJS_OK) {
                         tok = get_token(rt);
 
@@ -5109,8 +5113,12 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
         if (!(parser->flags & RJS_PARSE_FL_IN)
                     || !token_is_identifier(ntok->type, ntok->flags, RJS_IDENTIFIER_in)) {
             parse_unexpect_error(rt, &tok->location, _("`in\'"));
+            r = RJS_ERR;
+            goto end;
         } else if (prio > PRIO_REL) {
             parse_error(rt, &tok->location, _("unexpected relational expression"));
+            r = RJS_ERR;
+            goto end;
         }
         break;
     }
-- 
2.43.0


From 4210328dd723f7e7520af9ce5cb033fd23943ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 113/127] fix: strict mode reserved words as function names and
 parameters

---
 src/lib/rjs_parser.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index de99f4b..f7b9adc 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -1971,6 +1971,28 @@ parse_prev_define_note (RJS_Runtime *rt, RJS_Location *loc)
     parse_note(rt, loc, _("the previous definition is here"));
 }
 
+/*Check if the identifier is a reserved word in strict mode.*/
+static RJS_Bool
+is_strict_reserved_name (RJS_Runtime *rt, RJS_Value *id)
+{
+    static const char *names[] = {
+        "implements", "interface", "let", "package", "private",
+        "protected", "public", "static", "yield"
+    };
+    size_t           len = rjs_string_get_length(rt, id);
+    const RJS_UChar *c   = rjs_string_get_uchars(rt, id);
+    size_t           i, n;
+
+    for (i = 0; i < RJS_N_ELEM(names); i ++) {
+        for (n = 0; (n < len) && (c[n] == names[i][n]); n ++);
+
+        if ((n == len) && !names[i][n])
+            return RJS_TRUE;
+    }
+
+    return RJS_FALSE;
+}
+
 /*Check the binding identifier.*/
 static RJS_Bool
 check_binding_identifier (RJS_Runtime *rt, RJS_Location *loc, RJS_Value *id)
@@ -1979,7 +2001,7 @@ check_binding_identifier (RJS_Runtime *rt, RJS_Location *loc, RJS_Value *id)
 
     if (rjs_string_equal(rt, id, rjs_s_arguments(rt))
                 || rjs_string_equal(rt, id, rjs_s_eval(rt))
-                || rjs_string_equal(rt, id, rjs_s_yield(rt)))
+                || is_strict_reserved_name(rt, id))
         no_strict_list_add(rt, RJS_AST_IdRef, id);
 
     if (parser->flags & RJS_PARSE_FL_MODULE) {
-- 
2.43.0


From 296bea3048a939792fdc0c0036efab923588b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 114/127] fix: rest elements of object patterns must be last
 and cannot be patterns

---
 src/lib/rjs_bc_gen.c |  2 ++
 src/lib/rjs_parser.c | 35 ++++++++++++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index bb43d6d..a9b931d 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1999,6 +1999,8 @@ bc_gen_object (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstList *o, int rid)
             cmd->store.value = tr;
             break;
         }
+        case RJS_AST_LastElision:
+            break;
         case RJS_AST_ClassElem: {
             RJS_AstClassElem *ce = (RJS_AstClassElem*)p_ast;
 
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index f7b9adc..0cb6710 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3138,19 +3138,32 @@ object_to_binding (RJS_Runtime *rt, RJS_AstList *o, RJS_Value *b, RJS_Bool is_bi
     RJS_Result   r;
     RJS_Ast     *ast;
     RJS_AstList *ob;
-    size_t       top = rjs_value_stack_save(rt);
-    RJS_Value   *tmp = rjs_value_stack_push(rt);
+    size_t       top      = rjs_value_stack_save(rt);
+    RJS_Value   *tmp      = rjs_value_stack_push(rt);
+    RJS_Bool     has_rest = RJS_FALSE;
 
     ob = ast_new(rt, b, RJS_AST_ObjectBinding, &o->ast.location);
 
     rjs_list_foreach_c(&o->list, ast, RJS_Ast, ln) {
+        if (has_rest)
+            parse_error(rt, &ast->location, _("rest property may not be followed by any property"));
+
         switch (ast->type) {
         case RJS_AST_SpreadExpr: {
             RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)ast;
+            RJS_AstRest      *rest;
+            RJS_Ast          *target;
+
+            has_rest = RJS_TRUE;
 
             if ((r = spread_to_rest(rt, ue, tmp, is_binding)) == RJS_ERR)
                 goto end;
 
+            rest   = ast_get(rt, tmp);
+            target = ast_get(rt, &rest->binding);
+            if (target && ((target->type == RJS_AST_ObjectBinding) || (target->type == RJS_AST_ArrayBinding)))
+                parse_error(rt, &target->location, _("rest property cannot be a pattern"));
+
             ast_list_append(rt, &ob->list, tmp);
             break;
         }
@@ -3583,8 +3596,17 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
             ue = ast_new(rt, tmp1, RJS_AST_SpreadExpr, &tok->location);
 
             r = parse_expr_in_prio(rt, PRIO_ASSI, &ue->operand);
-            if (r == RJS_OK)
+            if (r == RJS_OK) {
                 rjs_list_append(&o->list, &ue->ast.ln);
+
+                /*`...' followed by `,' is not a pattern.*/
+                tok = get_token_div(rt);
+                unget_token(rt);
+                if (tok->type == RJS_TOKEN_comma) {
+                    ast_new(rt, tmp1, RJS_AST_LastElision, &tok->location);
+                    ast_list_append(rt, &o->list, tmp1);
+                }
+            }
         } else {
             ntok = next_token(rt);
 
@@ -6036,6 +6058,7 @@ parse_object_binding_pattern (RJS_Runtime *rt, RJS_Value *vb)
     RJS_Result   r   = RJS_ERR;
     size_t       top = rjs_value_stack_save(rt);
     RJS_Value   *tmp = rjs_value_stack_push(rt);
+    RJS_Bool     has_rest = RJS_FALSE;
 
     tok = curr_token(rt);
     ob  = ast_new(rt, vb, RJS_AST_ObjectBinding, &tok->location);
@@ -6054,6 +6077,8 @@ parse_object_binding_pattern (RJS_Runtime *rt, RJS_Value *vb)
         if (tok->type == RJS_TOKEN_dot_dot_dot) {
             RJS_AstRest *rest;
 
+            has_rest = RJS_TRUE;
+
             rest = ast_new(rt, tmp, RJS_AST_Rest, &tok->location);
 
             tok = get_token(rt);
@@ -6151,6 +6176,8 @@ parse_object_binding_pattern (RJS_Runtime *rt, RJS_Value *vb)
         if (tok->type != RJS_TOKEN_comma) {
             parse_unexpect_error(rt, &tok->location, _("`,\' or `}\'"));
             recover_object(rt);
+        } else if (has_rest) {
+            parse_error(rt, &tok->location, _("`...\' must be the last element"));
         }
     }
 
@@ -8176,6 +8203,8 @@ parse_method_params_body (RJS_Runtime *rt, RJS_Bool in_obj, RJS_AstClassElem *m,
         if (rjs_list_is_empty(&m->func->param_list)
                 || (m->func->param_list.next != m->func->param_list.prev))
             parse_error(rt, &m->ast.location, _("setter must has 1 parameter"));
+        else if (RJS_CONTAINER_OF(m->func->param_list.next, RJS_Ast, ln)->type == RJS_AST_Rest)
+            parse_error(rt, &m->ast.location, _("setter's parameter cannot be a rest parameter"));
     }
 
     if ((r = parse_func_body(rt)) == RJS_ERR)
-- 
2.43.0


From 50a21a4644f999dd054c57ff21e130c5f87a09a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 115/127] fix: early errors of for statements

---
 src/lib/rjs_parser.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 0cb6710..c09300c 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6626,6 +6626,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     RJS_Result      r           = RJS_ERR;
     RJS_Bool        is_decl     = RJS_FALSE;
     RJS_Bool        is_async_of = RJS_FALSE;
+    RJS_Bool        is_let      = RJS_FALSE;
     RJS_AstDeclType dtype       = RJS_AST_DECL_LET;
     size_t          top         = rjs_value_stack_save(rt);
     RJS_Value      *tmp         = rjs_value_stack_push(rt);
@@ -6648,6 +6649,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                 func->flags |= RJS_AST_FUNC_FL_ASYNC;
 
             stmt->ast.type = RJS_AST_AwaitForOfStmt;
+            contains_list_add(rt, RJS_AST_AwaitExprRef, &tok->location);
         } else {
             unget_token(rt);
         }
@@ -6700,10 +6702,13 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
             RJS_AstExprStmt *es;
             RJS_Token       *ntok;
 
-            ntok = next_token(rt);
-            if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_async)
-                    && token_is_identifier(ntok->type, ntok->flags, RJS_IDENTIFIER_of))
-                is_async_of = RJS_TRUE;
+            if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_async)) {
+                ntok = next_token_div(rt);
+                if (token_is_identifier(ntok->type, ntok->flags, RJS_IDENTIFIER_of))
+                    is_async_of = RJS_TRUE;
+            } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_let)) {
+                is_let = RJS_TRUE;
+            }
 
             unget_token(rt);
 
@@ -6762,10 +6767,26 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                 parse_error(rt, &es->ast.location, _("`async\' is disallowed when followed by `of\' in for-of statement"));
             }
 
+            /*Left hand expression must look ahead not let.*/
+            if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_of) && is_let)
+                parse_error(rt, &es->ast.location, _("`let\' is disallowed as the start of the left hand expression in for-of statement"));
+
             expr_to_lh(rt, &es->expr, tmp);
             rjs_value_copy(rt, &es->expr, tmp);
+            check_expr(rt, &es->expr);
         }
-    } else if (!is_decl) {
+    } else if (is_decl) {
+        RJS_AstList        *l = ast_get(rt, &stmt->init);
+        RJS_AstBindingElem *be;
+
+        /*The constants and patterns must be initialized.*/
+        rjs_list_foreach_c(&l->list, be, RJS_AstBindingElem, ast.ln) {
+            RJS_Ast *b = ast_get(rt, &be->binding);
+
+            if (!ast_get(rt, &be->init) && b && ((l->ast.type == RJS_AST_ConstDecl) || (b->type != RJS_AST_Id)))
+                parse_error(rt, &be->ast.location, _("the declaration must be initialized"));
+        }
+    } else {
         RJS_AstExprStmt *es = ast_get(rt, &stmt->init);
 
         if (es)
-- 
2.43.0


From 4b0dbd04a1f9e76e329bfcf08dee507b5c26cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 116/127] fix: optional chains as operand of delete and new

---
 src/lib/rjs_parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index c09300c..ede4f3a 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -2087,9 +2087,9 @@ check_delete_operand_internal (RJS_Runtime *rt, RJS_Value *v)
         switch (ast->type) {
         case RJS_AST_Id:
         case RJS_AST_PrivMemberExpr:
-        case RJS_AST_OptionalExpr:
             r = RJS_FALSE;
             break;
+        case RJS_AST_OptionalExpr:
         case RJS_AST_ParenthesesExpr: {
             RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)ast;
 
@@ -5457,6 +5457,12 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
             if (last_prio < PRIO_LH)
                 goto ok;
 
+            if (prio > PRIO_LH) {
+                parse_error(rt, &tok->location, _("optional chain cannot be in the constructor of `new\' expression"));
+                r = RJS_ERR;
+                goto end;
+            }
+
             last_prio = PRIO_LH;
 
             if ((r = parse_opt_expr(rt, tmp2, tmp1, prio)) == RJS_ERR)
-- 
2.43.0


From 87f368f7105714b50759ba951ad2c3704506b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 117/127] fix: (a,) is not an expression

---
 src/lib/rjs_parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index ede4f3a..a3af1ef 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3365,6 +3365,7 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
     RJS_AstList      *ce       = NULL;
     RJS_Bool          has_rest = RJS_FALSE;
     RJS_Bool          is_arrow = RJS_FALSE;
+    RJS_Bool          has_comma = RJS_FALSE;
     size_t            top      = rjs_value_stack_save(rt);
     RJS_Value        *tmp      = rjs_value_stack_push(rt);
 
@@ -3387,6 +3388,8 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
             goto end;
         }
 
+        has_comma = RJS_FALSE;
+
         if (!ce)
             ce = ast_new(rt, &pe->operand, RJS_AST_CommaExpr, &tok->location);
 
@@ -3424,6 +3427,8 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
             recover_params(rt);
         } else if (has_rest) {
             parse_error(rt, &tok->location, _("`...\' cannot be followed with `,\'"));
+        } else {
+            has_comma = RJS_TRUE;
         }
     }
 
@@ -3451,8 +3456,8 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
         rjs_value_copy(rt, ve, tmp);
     } else
 #endif /*ENABLE_ARROW_FUNC*/
-    if (has_rest || !ce) {
-        /*() or (...) must be an arrow parameter.*/
+    if (has_rest || has_comma || !ce) {
+        /*(), (...) or (a,) must be arrow parameters.*/
         parse_unexpect_token_error(rt, &ntok->location, RJS_TOKEN_eq_gt, 0);
         r = RJS_ERR;
         goto end;
-- 
2.43.0


From aa5c62f84fa671e8989be2fdd9decaacfeb84bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:31 +0000
Subject: [PATCH 118/127] fix: async arrow functions with a line break before
 the right parenthesis

---
 src/lib/rjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index a3af1ef..08b751b 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -4872,7 +4872,7 @@ parse_call_expr (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vf, int prio)
     if (same_line
             && (prio <= PRIO_ASSI)
             && (ntok->type == RJS_TOKEN_eq_gt)
-            && (ntok->location.first_line == parser->last_line)) {
+            && (ntok->location.first_line == parser->curr_token.location.last_line)) {
         ast = ast_get(rt, &ce->func);
 
         if (ast->type == RJS_AST_Id) {
-- 
2.43.0


From ba3f3ded80c859ef5a2d3467a7eaaff12178c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:33 +0000
Subject: [PATCH 119/127] fix: prototype of import.meta is null

---
 src/lib/rjs_module_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index 76598c0..ef308cf 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -2348,7 +2348,7 @@ rjs_module_import_meta (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *v)
     mod = rjs_value_get_gc_thing(rt, modv);
 
     if (rjs_value_is_undefined(rt, &mod->import_meta)) {
-        rjs_ordinary_object_create(rt, NULL, &mod->import_meta);
+        rjs_ordinary_object_create(rt, rjs_v_null(rt), &mod->import_meta);
     }
 
     rjs_value_copy(rt, v, &mod->import_meta);
-- 
2.43.0


From 9b3a75081f875840aa0c1a5f68690e1940a7b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:33 +0000
Subject: [PATCH 120/127] fix: modules waiting for asynchronous modules are
 evaluated once, after all of them

---
 src/lib/rjs_module_opt.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index ef308cf..e47c2b7 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -973,13 +973,11 @@ gather_available_ancestors (RJS_Runtime *rt, RJS_Module *mod, RJS_ModuleVector *
                 continue;
         }
 
+        /*The module may be in the list many times, so check if it is already gathered.*/
         r = rjs_hash_lookup(hash, pmod, &e, &pe, &rjs_hash_size_ops, rt);
         if (r)
             continue;
 
-        RJS_NEW(rt, e);
-        rjs_hash_insert(hash, pmod, e, pe, &rjs_hash_size_ops, rt);
-
         assert(pmod->status == RJS_MODULE_STATUS_EVALUATING_ASYNC);
         assert(pmod->eval_result != RJS_ERR);
         assert(pmod->async_eval);
@@ -988,6 +986,9 @@ gather_available_ancestors (RJS_Runtime *rt, RJS_Module *mod, RJS_ModuleVector *
         pmod->pending_async --;
 
         if (pmod->pending_async == 0) {
+            RJS_NEW(rt, e);
+            rjs_hash_insert(hash, pmod, e, pe, &rjs_hash_size_ops, rt);
+
             rjs_vector_append(vec, pmod, rt);
 
             if (!module_has_tla(rt, pmod))
@@ -1010,10 +1011,8 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
     size_t            top   = rjs_value_stack_save(rt);
     RJS_Value        *err   = rjs_value_stack_push(rt);
     RJS_Value        *pmodv = rjs_value_stack_push(rt);
-    RJS_List          mod_list;
 
     rjs_vector_init(&mod_vec);
-    rjs_list_init(&mod_list);
 
     mod = rjs_value_get_gc_thing(rt, modv);
 
@@ -1046,24 +1045,18 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
                 rjs_catch(rt, err);
                 async_module_execution_rejected(rt, pmodv, err);
             } else {
-                pmod->status = RJS_MODULE_STATUS_EVALUATED;
+                pmod->async_eval = 0;
+                pmod->status     = RJS_MODULE_STATUS_EVALUATED;
 
                 if (!rjs_value_is_undefined(rt, pmod->top_level_capability.promise)) {
                     assert(same_module(rt, &pmod->cycle_root, pmodv));
 
                     rjs_call(rt, pmod->top_level_capability.resolve, rjs_v_undefined(rt), NULL, 0, NULL);
                 }
-
-                rjs_list_append(&mod_list, &pmod->ln);
             }
         }
     }
 
-    rjs_list_foreach_c(&mod_list, mod, RJS_Module, ln) {
-        rjs_value_set_gc_thing(rt, pmodv, mod);
-        execute_valid_modules(rt, pmodv);
-    }
-
     rjs_vector_deinit(&mod_vec, rt);
     rjs_value_stack_restore(rt, top);
 }
-- 
2.43.0


From cf6bbe1a30d4e65093cdcd06bad4c85678c3eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:43 +0000
Subject: [PATCH 121/127] fix: JSON modules keep their environment when they
 are linked

---
 src/lib/rjs_module_opt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index e47c2b7..b416f76 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -322,6 +322,10 @@ module_init_env (RJS_Runtime *rt, RJS_Value *modv)
     RJS_ScriptBindingGroup  *var_grp, *lex_grp;
     RJS_ScriptFuncDeclGroup *func_grp;
 
+    /*The environment of a JSON module is created when it is loaded.*/
+    if (mod->env && !script->func_num && !mod->module_request_num)
+        return RJS_OK;
+
     /*Resolve indirect export entries.*/
     rjs_resolve_binding_init(rt, &rb);
 
@@ -1573,7 +1577,7 @@ load_json_module (RJS_Runtime *rt, RJS_Value *mod, RJS_Input *input, const char
         rjs_hash_insert(&m->export_hash, key, &ee->he, NULL, &rjs_hash_size_ops, rt);
 
         /*Create the module environment.*/
-        rjs_module_link(rt, mod);
+        rjs_module_env_new(rt, &m->env, rjs_global_env(s->realm));
 
         /*Store JSON as *default* binding.*/
         rjs_binding_name_init(rt, &bn, rjs_s_star_default_star(rt));
-- 
2.43.0


From db362a7c51d535a44fba6692d8b88865a500cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:03 +0000
Subject: [PATCH 122/127] fix: modules whose requested modules cannot be loaded
 are not linked

---
 src/lib/rjs_module_opt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index b416f76..a01a2ae 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -503,7 +503,9 @@ module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
                     } else {
                         RJS_Module *rm = rjs_value_get_gc_thing(rt, &mr->module);
 
-                        if (rm->status == RJS_MODULE_STATUS_LOADING_FAILED)
+                        if ((rm->status == RJS_MODULE_STATUS_LOADING_FAILED)
+                                || (rm->status == RJS_MODULE_STATUS_ALLOCATED)
+                                || (rm->status == RJS_MODULE_STATUS_LOADED))
                             mod_failed = RJS_TRUE;
                         else if (rm->status == RJS_MODULE_STATUS_LOADING_REQUESTED)
                             mod_not_end = RJS_TRUE;
@@ -514,13 +516,13 @@ module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
                 }
 
                 if (mod_failed) {
-                    m->status = RJS_MODULE_STATUS_LOADING_FAILED;
                     failed = RJS_TRUE;
                     mod_not_end = RJS_FALSE;
                 }
 
                 if (!mod_not_end) {
-                    m->status = RJS_MODULE_STATUS_UNLINKED;
+                    /*The requested modules can be loaded again if the loading failed.*/
+                    m->status = mod_failed ? RJS_MODULE_STATUS_LOADED : RJS_MODULE_STATUS_UNLINKED;
                     rjs_value_set_undefined(rt, m->top_level_capability.promise);
                     rjs_list_remove(&m->ln);
                     action = RJS_TRUE;
@@ -594,6 +596,7 @@ static RJS_NF(module_load_ok)
     if (mod->status == RJS_MODULE_STATUS_LOADED) {
         mod->status = RJS_MODULE_STATUS_LOADING_REQUESTED;
         module_load_req_modules(rt, mlrd, modv);
+        rjs_list_append(&mlrd->mod_list, &mod->ln);
     }
 
     return module_load_req_result(rt, mlrd);
-- 
2.43.0


From a0f0c060287ed0d58dc8993b81fe602a54b23da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 123/127] fix: a name that is ambiguous in a star exported
 module is ambiguous

---
 src/lib/rjs_module_opt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index a01a2ae..d8b2141 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -1930,6 +1930,9 @@ resolve_export (RJS_Runtime *rt, RJS_Value *mod, RJS_Value *name, ResolveBinding
         if ((r = resolve_export(rt, &mr->module, name, rb_set, &star_rb)) == RJS_ERR)
             goto end;
 
+        if (r == RJS_AMBIGUOUS)
+            goto end;
+
         if (r) {
             if (resolved) {
                 if (!same_module(rt, star_rb.module, rb->module)
-- 
2.43.0


From fd8377945c332494c91d13abcd19055606384fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:26 +0000
Subject: [PATCH 124/127] fix: the module request table keeps the collected
 name string

---
 src/lib/rjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 08b751b..acfeb8f 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -8779,7 +8779,7 @@ module_request_add (RJS_Runtime *rt, RJS_Location *loc, RJS_Value *name)
     mr->name = value_entry_add(rt, loc, name);
     mr->id   = parser->module_request_hash.entry_num;
 
-    hash_insert(rt, &parser->module_request_hash, name, &mr->he, phe);
+    hash_insert(rt, &parser->module_request_hash, &mr->name->value, &mr->he, phe);
     ast_list_append(rt, &parser->module_request_list, tmp);
 end:
     rjs_value_stack_restore(rt, top);
-- 
2.43.0


From f2e3d9c4a68db98458e9bd84fde9b4f60f55e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:21 +0000
Subject: [PATCH 125/127] fix: properties of a collected DataView are freed

---
 src/lib/rjs_data_view_object_inc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_data_view_object_inc.c b/src/lib/rjs_data_view_object_inc.c
index 88d3c2a..d17d0e6 100644
--- a/src/lib/rjs_data_view_object_inc.c
+++ b/src/lib/rjs_data_view_object_inc.c
@@ -49,6 +49,8 @@ data_view_op_gc_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_DataView *dv = ptr;
 
+    rjs_object_deinit(rt, &dv->objcet);
+
     RJS_DEL(rt, dv);
 }
 
-- 
2.43.0


From 1635c2ba88fcb4c23235db93bc04f5af2329931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:07 +0000
Subject: [PATCH 126/127] fix: a long number in a date string overflows

---
 src/lib/rjs_date_object_inc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 666c312..8cf2c67 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -552,8 +552,11 @@ parse_date_number (RJS_Runtime *rt, RJS_Input *input, int len)
             break;
         }
 
-        v *= 10;
-        v += c - '0';
+        /*No valid field is so long. Stop counting to avoid overflow.*/
+        if (v < 100000000) {
+            v *= 10;
+            v += c - '0';
+        }
 
         rlen ++;
 
-- 
2.43.0


From f10954c83712d34f661c6b257c46f66f5be2a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:09 +0000
Subject: [PATCH 127/127] fix: solving the jobs inside a job ran the current
 job again

---
 src/lib/include/rjs_job.h |  1 +
 src/lib/rjs_job.c         | 31 ++++++++++++++++++++++---------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/lib/include/rjs_job.h b/src/lib/include/rjs_job.h
index 0bdb83c..2831351 100644
--- a/src/lib/include/rjs_job.h
+++ b/src/lib/include/rjs_job.h
@@ -43,6 +43,7 @@ typedef struct {
     RJS_JobFunc     func;  /**< Callback function.*/
     RJS_ScanFunc    scan;  /**< Data scan function.*/
     RJS_FreeFunc    free;  /**< Data free function.*/
+    RJS_Bool        running; /**< The job's function is running.*/
 } RJS_Job;
 
 /**
diff --git a/src/lib/rjs_job.c b/src/lib/rjs_job.c
index a23bf94..be78369 100644
--- a/src/lib/rjs_job.c
+++ b/src/lib/rjs_job.c
@@ -62,6 +62,8 @@ rjs_job_enqueue (RJS_Runtime *rt, RJS_JobFunc func, RJS_Realm *realm,
     job->free  = free;
     job->data  = data;
 
+    job->running = RJS_FALSE;
+
     rjs_list_append(&rt->job_list, &job->ln);
 
     return RJS_OK;
@@ -74,20 +76,31 @@ rjs_job_enqueue (RJS_Runtime *rt, RJS_JobFunc func, RJS_Realm *realm,
 void
 rjs_solve_jobs (RJS_Runtime *rt)
 {
-    RJS_Job   *j, *nj;
+    RJS_Job   *j, *next;
     RJS_Realm *old_realm = rt->rb.bot_realm;
 
-    while (!rjs_list_is_empty(&rt->job_list)) {
-        rjs_list_foreach_safe_c(&rt->job_list, j, nj, RJS_Job, ln) {
+    while (1) {
+        /*This function may be invoked by a job, skip the running jobs.*/
+        next = NULL;
 
-            rt->rb.bot_realm = j->realm;
-            
-            j->func(rt, j->data);
+        rjs_list_foreach_c(&rt->job_list, j, RJS_Job, ln) {
+            if (!j->running) {
+                next = j;
+                break;
+            }
+        }
 
-            rjs_list_remove(&j->ln);
+        if (!next)
+            break;
 
-            job_free(rt, j);
-        }
+        rt->rb.bot_realm = next->realm;
+        next->running    = RJS_TRUE;
+
+        next->func(rt, next->data);
+
+        rjs_list_remove(&next->ln);
+
+        job_free(rt, next);
     }
 
     rt->rb.bot_realm = old_realm;
-- 
2.43.0

