From 7ebff115700eeb30521c4bb5e696771ea7312bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:19 +0000
Subject: [PATCH 1/8] fix: ESC[@, ESC[P and ESC[X at the right margin left the
 parser inside the sequence

The text that followed was taken for more parameters.
---
 libtty/tty.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 5133d26..2bb8850 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1008,7 +1008,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i>SX-CX)
                     i=SX-CX;
                 if (i<=0)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 if (vt->scr[CY*SX+CX].ch==VT100_CJK_RIGHT)
                 {
@@ -1036,7 +1039,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i>SX-CX)
                     i=SX-CX;
                 if (i<=0)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 tty_kill_comb_region(vt, CY*SX+CX, i);
@@ -1060,8 +1066,11 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
-                if (!i)
+                if (i<=0)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 CLEAR(CX, CY, i);
-- 
2.43.0


From 98566253922ea9e62746dc6fb22f971363f7ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 2/8] fix: extended colours with missing parameters took them
 from earlier requests

---
 libtty/tty.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 2bb8850..7109175 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -789,21 +789,20 @@ export void tty_write(tty vt, const char *buf, int len)
                         FG(16, vt->tok[i]-30);
                         break;
                     case 38:
-                        if (i>=VT100_MAXTOK-1)
+                        if (i>=vt->ntok)
                             break;
                         switch (vt->tok[++i])
                         {
                         case 5:
-                            if (i>=VT100_MAXTOK-1)
+                            if (i>=vt->ntok)
                                 break;
                             FG(256, vt->tok[++i]);
                             break;
                         case 2:
-                            if (i>=VT100_MAXTOK-3)
-                                break;
-                            FG(RGB, (vt->tok[i+1]&0xff)<<16
-                                  | (vt->tok[i+2]&0xff)<<8
-                                  | (vt->tok[i+3]&0xff));
+                            if (i+3<=vt->ntok)
+                                FG(RGB, (vt->tok[i+1]&0xff)<<16
+                                      | (vt->tok[i+2]&0xff)<<8
+                                      | (vt->tok[i+3]&0xff));
                             // fallthru
                         case 3:
                             i+=3;
@@ -820,21 +819,20 @@ export void tty_write(tty vt, const char *buf, int len)
                         BG(16, vt->tok[i]-40);
                         break;
                     case 48:
-                        if (i>=VT100_MAXTOK-1)
+                        if (i>=vt->ntok)
                             break;
                         switch (vt->tok[++i])
                         {
                         case 5:
-                            if (i>=VT100_MAXTOK-1)
+                            if (i>=vt->ntok)
                                 break;
                             BG(256, vt->tok[++i]);
                             break;
                         case 2:
-                            if (i>=VT100_MAXTOK-3)
-                                break;
-                            BG(RGB, (vt->tok[i+1]&0xff)<<16
-                                  | (vt->tok[i+2]&0xff)<<8
-                                  | (vt->tok[i+3]&0xff));
+                            if (i+3<=vt->ntok)
+                                BG(RGB, (vt->tok[i+1]&0xff)<<16
+                                      | (vt->tok[i+2]&0xff)<<8
+                                      | (vt->tok[i+3]&0xff));
                             // fallthru
                         case 3:
                             i+=3;
-- 
2.43.0


From 46029f2f6651378f0cc58b69fbea003bb6fbb425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 3/8] fix: byte order marks became combining marks, U+FFEF was
 dropped instead

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 7109175..c4ea32f 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -571,7 +571,7 @@ export void tty_write(tty vt, const char *buf, int len)
 
                 if (c<0xA0) // underlong or C1 controls
                     c=0xFFFD;
-                if (c==0xFFEF)  // BOM
+                if (c==0xFEFF)  // BOM
                     continue;
 
                 /* The following code deals with malformed UTF-16
-- 
2.43.0


From 27d15f0122e8c98de0ce1469f8ec602e24e57242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 4/8] fix: the text of a cancelled string command became the
 next title

---
 libtty/tty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index c4ea32f..a8421af 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -638,6 +638,9 @@ export void tty_write(tty vt, const char *buf, int len)
             case ']':
                 vt->state=ESosc;
                 vt->tok[0]=0;
+                // left over from a cancelled or invalid one
+                free(vt->oscbuf);
+                vt->oscbuf=0;
                 break;
 
             case '(':
-- 
2.43.0


From ec68064a0da7ecb87ba2cd1fec45ded95387191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 5/8] fix: tty_printf lost texts of 16384 bytes and more, and
 leaked empty ones

---
 libtty/tty.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index a8421af..2d93613 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1273,14 +1273,14 @@ export void tty_printf(tty vt, const char *fmt, ...)
     va_start(ap, fmt);
     len=vsnprintf(buf, BUFFER_SIZE, fmt, ap);
     va_end(ap);
-    if (len<=0)
+    if (len<0)
     {
         va_start(ap, fmt);
         len=vasprintf(&bigstr, fmt, ap);
         va_end(ap);
-        if (len<=0 || !bigstr)
+        if (len<0 || !bigstr)
             return;
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else if (len>=BUFFER_SIZE)
@@ -1290,7 +1290,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_start(ap, fmt);
         len=vsnprintf(bigstr, len+1, fmt, ap);
         va_end(ap);
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else
-- 
2.43.0


From 4b2a03f1420739ae651c6e237dd89225eaae6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 6/8] fix: tty_copy copied the listeners, despite the
 documentation

---
 libtty/tty.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 2d93613..50bce6b 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -201,6 +201,19 @@ export tty tty_copy(tty vt)
     if (vt->oscbuf)
         if ((nvt->oscbuf=malloc(MAXOSC)))
             memcpy(nvt->oscbuf, vt->oscbuf, vt->osclen);
+    // listeners are not copied
+    nvt->l_data=0;
+    nvt->l_char=0;
+    nvt->l_comb=0;
+    nvt->l_cursor=0;
+    nvt->l_clear=0;
+    nvt->l_scroll=0;
+    nvt->l_flag=0;
+    nvt->l_osc=0;
+    nvt->l_resize=0;
+    nvt->l_flush=0;
+    nvt->l_bell=0;
+    nvt->l_free=0;
     return nvt;
 
 drop_scr:
-- 
2.43.0


From 8611d99f55de1328b1a99024a9efca5895284500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 7/8] fix: adding times in live recording gave a million
 microseconds

---
 libtty/formats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a2e524e..ba179a8 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -94,7 +94,7 @@ Will be called when the recording ends.
 # define little_endian(x) ((uint32_t)(x))
 #endif
 
-#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>1000000)        \
+#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>=1000000)       \
                             (t).tv_usec-=1000000, (t).tv_sec++;         \
                          (t).tv_sec+=(d).tv_sec;                        \
                         }
-- 
2.43.0


From 5b100b159d0e188ed25d9a972a0036ac96c622de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 8/8] fix: a wide character cut by a resize loses its combining
 marks too

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 50bce6b..3d25cff 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -146,6 +146,7 @@ export int tty_resize(tty vt, int nsx, int nsy)
                 {
                     vt->scr[y*SX+nsx-1].ch=' ';
                     vt->scr[y*SX+nsx-1].attr&=~VT100_ATTR_CJK;
+                    tty_kill_comb(vt, &vt->scr[y*SX+nsx-1]);
                 }
         for (y=0;y<SY && y<nsy;y++)
             for (x=0;x<SX && x<nsx;x++)
-- 
2.43.0

