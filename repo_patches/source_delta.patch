From 4e253fbcea3fc17e5473035aada9f44e32262f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 01/45] fix: integer codec drops the most significant byte of
 every field

---
 pythonbmp/inttools.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 8450315..2f1a74c 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -36,8 +36,7 @@ def writeint(offset: int, cnt: int,
     Returns:
         byref unsigned byte array
     """
-    j = cnt - 1
-    for i in range(j):
+    for i in range(cnt):
         arr[offset + i] = value & 0xff
         value = value >> 8
 
@@ -59,8 +58,7 @@ def readint(offset: int, cnt: int,
     Returns:
         unsigned int value
     """
-    j = cnt - 1
-    return sum(arr[offset + i] << (i << 3) for i in range(j))
+    return sum(arr[offset + i] << (i << 3) for i in range(cnt))
 
 
 def int2buf(cnt: int, value: int
@@ -88,5 +86,4 @@ def buf2int(buf: array) -> int:
     Returns:
         unsigned int value
     """
-    j = len(buf) - 1
-    return sum(buf[i] << (i << 3) for i in range(j))
+    return sum(buf[i] << (i << 3) for i in range(len(buf)))
-- 
2.43.0


From 1f0d32f0eb4a303e65b0b2c5aab8ea9d973bd668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 02/45] fix: copied selections record the size of the region,
 so pasting puts it at the requested place

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 658581c..a8d644e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7707,8 +7707,8 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1 + 2)
-    retval += int2buf(2, y2 - y1 + 1)
+    retval += int2buf(2, x2 - x1)
+    retval += int2buf(2, y2 - y1)
     retval += int2buf(2,
                 adjustxbufsize(bmp, x1, x2))
     for buf in itercopyrect(
-- 
2.43.0


From 8a1e036a709151bc8b9162443eaeef1cb2ce1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:26 +0000
Subject: [PATCH 03/45] fix: point lists with a point outside the bounds are
 reported as outside

---
 pythonbmp/BITMAPlib.py    | 2 +-
 pythonbmp/primitives2D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index a8d644e..1453326 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -499,7 +499,7 @@ def listinBMPrecbnd(bmp: array,
     for (x, y) in xylist:
         if isinBMPrectbnd(
             bmp, x, y) == False:
-            break
+            return False
     return True
 
 
diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5df504a..4025e6a 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -818,7 +818,7 @@ def listinrecbnd(
                        xmin, ymin,
                        xmax, ymax) == \
             False:
-            break
+            return False
     return True
 
 
-- 
2.43.0


From 935991a6b95dac69c615376a67e303fccd48e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 04/45] fix: circular region guard checks the vertical bound
 against the height

---
 pythonbmp/paramchecks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/paramchecks.py b/pythonbmp/paramchecks.py
index 035e0a4..18d8adc 100644
--- a/pythonbmp/paramchecks.py
+++ b/pythonbmp/paramchecks.py
@@ -352,7 +352,7 @@ def entirecircleinboundary(func):
                            and type(r) == int:
             if entirecircleisinboundary(
                     x, y, -1, readint(bmpx, 4, bmp),
-                          -1, readint(bmpx, 4, bmp), r):
+                          -1, readint(bmpy, 4, bmp), r):
                 return(func(*args, **kwargs))
             else:
                 print(sysmsg['regionoutofbounds'])
-- 
2.43.0


From 40bc8c890fc04ae1ecab04c875d8fe21d767cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 05/45] fix: exact diagonals start at their first point and
 stop at their last

---
 pythonbmp/primitives2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 4025e6a..d3330d5 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -174,6 +174,8 @@ def iterline(p1: list[int, int],
     dxabs = abs(dx)
     dyabs = abs(dy)
     x = y = 0
+    if dxabs == dyabs:
+        y = -dyabs
     (px, py) = p1
     if dxabs >= dyabs:
         ilim = dxabs + 1
-- 
2.43.0


From efd10952d1f25b0f189a3da49a8344b70ec5b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 06/45] fix: ellipse boundary check uses the axis that extends
 in each direction

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index d3330d5..d987190 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -872,10 +872,10 @@ def entireellipseisinboundary(
         False -> Not all (x, y)
                  is in bounds
     """
-    return (isinrange(x - b, maxx, minx) and \
-            isinrange(x + b, maxx, minx)) and \
-           (isinrange(y - a, maxy, miny) and \
-            isinrange(y + a, maxy, miny))
+    return (isinrange(x - a, maxx, minx) and \
+            isinrange(x + a, maxx, minx)) and \
+           (isinrange(y - b, maxy, miny) and \
+            isinrange(y + b, maxy, miny))
 
 
 def ellipsevert(x: int, y: int,
-- 
2.43.0


From ed62c82c4f1e2d30d0def7da4223f7c5bfc72f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 07/45] fix: flipping 1-bit image bytes keeps the lowest bit

---
 pythonbmp/bufferflip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufferflip.py b/pythonbmp/bufferflip.py
index bbc4ea9..69c2d5e 100644
--- a/pythonbmp/bufferflip.py
+++ b/pythonbmp/bufferflip.py
@@ -30,7 +30,7 @@ def rotatebitsinbuf(
     Returns:
         unsigned byte array
     """
-    return array('B', [rotatebits(b)
+    return array('B', [rotatebits(b) | (b & 1) << 7
                        for b in buf])
 
 
-- 
2.43.0


From a64fcf6f7943acee9b1624ae2f233623ad6341be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 08/45] fix: vertical lines wholly above or below the canvas
 draw nothing

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1453326..19cf3c3 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2089,6 +2089,8 @@ def vertline(bmp: array, x: int,
                 swapif(y1, y2, y1 > y2)
             y1 = setmin(y1, 0)
             y2 = setmax(y2, my - 1)
+            if y1 > y2:
+                return
             dy = y2 - y1 + 1
             rgb = int2RGBlist(color)
             s = c(bmp, x, y2)
-- 
2.43.0


From 1bf05dc490564a4238d70382910fa5c9ee306f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 09/45] fix: splitting a buffer of odd length keeps its last
 elements

---
 pythonbmp/buffersplit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/buffersplit.py b/pythonbmp/buffersplit.py
index 874ca8e..c0e0ac7 100644
--- a/pythonbmp/buffersplit.py
+++ b/pythonbmp/buffersplit.py
@@ -49,7 +49,7 @@ def altsplitbuf3way(buf: list[any]
     """
     m = len(buf)
     if m % 3 == 0:
-        m -= m & 1
+        m -= m % 3
     return [buf[:m - 2:3], buf[1: m - 1: 3], buf[2: m: 3]]
 
 
@@ -72,7 +72,7 @@ def altsplitbufnway(buf: list[any],
     m = len(buf)
     j = n - 1
     if m % n == 0:
-        m -= m & 1
+        m -= m % n
     for i in range(n):
         retval += [buf[i: m - j: n]]
         j -= 1
-- 
2.43.0


From 17df51674df9211b097a3abd96bee3de23ff880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 10/45] fix: horizontal lines wholly beside the canvas draw
 nothing

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 19cf3c3..4f818ae 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2025,6 +2025,8 @@ def horiline(bmp: array, y: int,
         x1, x2 = swapif(x1, x2, x1 > x2)
         x1 = setmin(x1, 0)
         x2 = setmax(x2, mx - 1)
+        if x1 > x2:
+            return
         dx = x2 - x1 + 1
         s = _BMoffsethd(bmp, x1, y)
         if bits == 24:
-- 
2.43.0


From 8ab0c4107ec7506788385fb6a80de6c2e585670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 11/45] fix: iterating the colours of 1-bit and 4-bit images
 advances at the end of every row

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4f818ae..c44ffa1 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7615,7 +7615,7 @@ def iterimageRGB(bmp: array,
                                 b[offset + 1],
                                 b[offset]))
             x += 1
-        if x == mx:
+        if x >= mx:
             x = 0
             y -= 1
             offset += padbytes
-- 
2.43.0


From bd8d5f3509fd87a82f27258e4890861dea13ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 12/45] fix: cropping an 8-bit image keeps its palette

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c44ffa1..c459d2f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8748,8 +8748,9 @@ def crop(bmp: array, x1: int, y1: int,
     bits = bmp[bmpcolorbits]
     nbmp = newBMP(x2 - x1 + 1,
                   y2 - y1 + 1, bits)
-    if bits < 8:
+    if bits < 24:
         copyRGBpal(bmp, nbmp)
+    if bits < 8:
         for v in itergetcolorfromrectregion(
                     bmp, x1, y1, x2, y2):
             intplotvecxypoint(nbmp,
-- 
2.43.0


From ddea3e6d3a51f9607b7732b5f7cc2fbc791a1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 13/45] fix: circular filters clipped by the canvas edge do not
 fail

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c459d2f..10ac87a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2507,7 +2507,7 @@ def _usenopar24btfn2circreg(bmp: array,
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1 ,y2),
+                s2 = c(bmp, x1 ,y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
             if isinrange(y1, ymax, -1) and y2 != y1:
-- 
2.43.0


From 94d105b6025f4f40b05097bd049e2f0858352520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 14/45] fix: erasing every nth line reaches the last line

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 10ac87a..276aaeb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7834,7 +7834,7 @@ def erasealternatehorizontallines(
     bytepat &= 0xff
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
@@ -7978,7 +7978,7 @@ def erasealternatehorizontallinesinregion(
     s2 = f(bmp, x1, y1)
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
-- 
2.43.0


From 894615d1e524ee9c539001aa6587e8dd0950c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 15/45] fix: circular filters with several parameters refuse a
 missing source file

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 276aaeb..728abd6 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13605,6 +13605,7 @@ def _use24btclrfnwithpar2circreg(
             ExistingBMPfile, NewBMPfile))
 
 
+@checklink
 def _use24btclrfnwithmultpar2circreg(
         ExistingBMPfile: str,
         NewBMPfile: str,
-- 
2.43.0


From d36ea366a080ad0949408fa6887ee4a2e1666d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 16/45] fix: pasting a circular selection of another depth
 raises a real exception

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 728abd6..fb64137 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2639,7 +2639,7 @@ def pastecirularbuf(bmp: array,
                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
                         circbuf[i][1]
             else:
-                raise(sysmsg['bitsnotequal'])
+                raise ValueError(sysmsg['bitsnotequal'])
         else:
             print(sysmsg['regionoutofbounds'])
 
-- 
2.43.0


From 1182305d2f2029150b4a56b93b1183b81aabef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 17/45] fix: neighbours in the first row and column are
 reported

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index d987190..d67799f 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -670,20 +670,20 @@ def itergetneighbors(v: list[int, int],
         ty = y - 1
         rx = x + 1
         by = y + 1
-        if ty > 0:
+        if ty >= 0:
             yield [x, ty]
         if includecenter:
             yield(v)
         if by < my:
             yield [x, by]
-        if lx > 0:
-            if ty > 0:
+        if lx >= 0:
+            if ty >= 0:
                 yield [lx, ty]
             yield [lx, y]
             if by < my:
                 yield [lx, by]
         if rx < mx:
-            if ty > 0:
+            if ty >= 0:
                 yield [rx, ty]
             yield [rx, y]
             if by < my:
-- 
2.43.0


From b13e90fe3d82e4fa6832fa95bd9d7c37f1a4569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 18/45] fix: brightness gradients accept regions one pixel wide
 or high

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fb64137..b475a3b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12367,7 +12367,7 @@ def verticalbrightnessgradto24bitregion(
     offset = _24bmof(bmp, x1, y2)
     r = _xchrcnt(bmp)
     lum = lumrange[1]
-    dlum = (lumrange[0] - lum) / (y2 - y1)
+    dlum = (lumrange[0] - lum) / setmin(y2 - y1, 1)
     for buf in itercopyrect(bmp, x1, y1, x2, y2):
         BMPbitBLTput(bmp, offset,
              applybrightnessadjtoBGRbuf(buf, lum))
@@ -12404,7 +12404,7 @@ def horizontalbrightnessgradto24bitregion(
     xlim = x2 + 1
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (x2 - x1)
+    dl = delta(lumrange) / setmin(x2 - x1, 1)
     for x in range(x1, xlim):
         s = c(bmp, x, y2)
         e = c(bmp, x, y1)
-- 
2.43.0


From d96ae4679c563a304a29b434682c10251574b1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 19/45] fix: filled circles and ellipses left of the canvas
 leave the file size alone

---
 pythonbmp/BITMAPlib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b475a3b..b27cdc1 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3384,6 +3384,8 @@ def filledcircle(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 rgb = int2RGBlist(color)
                 colorbuf = array('B', [rgb[2],
@@ -3402,6 +3404,8 @@ def filledcircle(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
@@ -3754,6 +3758,8 @@ def filledellipse(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 rgb = int2RGBlist(color)
                 colorbuf = \
@@ -3773,6 +3779,8 @@ def filledellipse(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
-- 
2.43.0


From a5b583571d2cb78929cf97c71098b624363e3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 20/45] fix: 3D determinant uses the third row in its last term

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index a913326..79939a9 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -781,7 +781,7 @@ def det3D(
            a1[2] * a2[0] * a3[1] - \
            a1[0] * a2[2] * a3[1] - \
            a1[1] * a2[0] * a3[2] - \
-           a1[2] * a2[1] * a2[0]
+           a1[2] * a2[1] * a3[0]
 
 
 def cosaffin(u: list[Number],
-- 
2.43.0


From afacd9dd4208accf82883cf4b375a5cfbb43831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:58 +0000
Subject: [PATCH 21/45] fix: nearest palette colour considers black entries

---
 pythonbmp/colors.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index c2fd5aa..c9bdd51 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -294,11 +294,10 @@ def matchRGBtopal(RGB: list,
         c = pal.index(RGB)
     else:
         for p in pal:
-            if p != [0,0,0] and RGB != [0,0,0]:
-                newd = dist(RGB, p)
-                if newd < d:
-                    c = i
-                    d = newd
+            newd = dist(RGB, p)
+            if newd < d:
+                c = i
+                d = newd
             i += 1
     return c
 
-- 
2.43.0


From 47f5657adb11a0078f0673f4eaf6248a8f4e691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 22/45] fix: mirroring left/right at 1 and 4 bits reversed the
 middle byte of a region with an odd number of bytes

---
 pythonbmp/BITMAPlib.py  | 17 +++++++++++++----
 pythonbmp/bufferflip.py | 22 ++++++++++++++++++++++
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b27cdc1..9abb433 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -243,6 +243,7 @@ from .paramchecks import(
 
 from .bufferflip import(
     flipnibbleinbuf,
+    mirrorbitsinbuf,
     rotatebitsinbuf
     )
 
@@ -8388,12 +8389,16 @@ def mirrorleftinregion(
         bmp[s2: e2: r] = bmp[s1: e1: r]
 
     def _4(bmp, s1, e1, s2, e2, r):
+        buf = bmp[s1: e1: r]
         bmp[s2: e2: r] = \
-             flipnibbleinbuf(bmp[s1: e1: r])
+             mirrorbitsinbuf(buf, flipnibbleinbuf, 0xF0) \
+             if s1 == s2 else flipnibbleinbuf(buf)
 
     def _1(bmp, s1, e1, s2, e2, r):
+        buf = bmp[s1: e1: r]
         bmp[s2: e2: r] = \
-            rotatebitsinbuf(bmp[s1: e1: r])
+            mirrorbitsinbuf(buf, rotatebitsinbuf, 0xF0) \
+            if s1 == s2 else rotatebitsinbuf(buf)
 
     horizontalbulkswap(bmp,
         x1, y1, x2, y2,
@@ -8428,12 +8433,16 @@ def mirrorrightinregion(
         bmp[s1: e1: r] = bmp[s2: e2: r]
 
     def _4(bmp, s1, e1, s2, e2, r):
+        buf = bmp[s2: e2: r]
         bmp[s1: e1: r] = \
-             flipnibbleinbuf(bmp[s2: e2: r])
+             mirrorbitsinbuf(buf, flipnibbleinbuf, 0x0F) \
+             if s1 == s2 else flipnibbleinbuf(buf)
 
     def _1(bmp, s1, e1, s2, e2, r):
+        buf = bmp[s2: e2: r]
         bmp[s1: e1: r] = \
-            rotatebitsinbuf(bmp[s2: e2: r])
+            mirrorbitsinbuf(buf, rotatebitsinbuf, 0x0F) \
+            if s1 == s2 else rotatebitsinbuf(buf)
 
     horizontalbulkswap(
         bmp, x1, y1, x2, y2,
diff --git a/pythonbmp/bufferflip.py b/pythonbmp/bufferflip.py
index 69c2d5e..4ffadaa 100644
--- a/pythonbmp/bufferflip.py
+++ b/pythonbmp/bufferflip.py
@@ -48,6 +48,28 @@ def flipnibbleinbuf(
                     for b in buf])
 
 
+def mirrorbitsinbuf(
+        buf: array,
+        flipfunc,
+        keepmask: int) -> array:
+    """Mirrors the bytes in an unsigned
+        byte array within themselves
+
+    Args:
+        buf     : unsigned byte array
+        flipfunc: function that flips
+                  the pixels in a byte
+        keepmask: the bits of the half
+                  that is kept
+
+    Returns:
+        unsigned byte array
+    """
+    return array('B',
+        [(b & keepmask) | (f & ~keepmask)
+         for b, f in zip(buf, flipfunc(buf))])
+
+
 def flip24bitbuf(buf: array) -> array:
     """Flips a 24-bit buffer
 
-- 
2.43.0


From 9df6c0e9394f1e4df99ebfd32b2cabde3c80bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 23/45] fix: the lower part of an ellipse was walked with the
 decision of the upper part: it left the bounding box or stopped short of the
 tip, and never ended for both axes 0

---
 pythonbmp/primitives2D.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index d67799f..bbb9d75 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -249,23 +249,26 @@ def iterellipsepart(b: int, a: int) -> list[int, int]:
     _4b_sqr = b_sqr << 2
     d= _2a_sqr * ((row - 1) * row) + \
         a_sqr + _2b_sqr * (1 - a_sqr)
-    while row * a_sqr >= col * b_sqr:
+    while row * a_sqr > col * b_sqr:
         yield [col, row]
         if d >= 0:
             row -= 1
             d -= _4a_sqr * row
         d += _2b_sqr * (3 + (col << 1))
         col += 1
-    d = _2b_sqr * ((col - 1) * col) + \
+    d = _2b_sqr * ((col + 1) * col) + \
         _2a_sqr * (row * (row - 2) + 1) + \
         (1 - _2a_sqr) * b_sqr
     while row > -1:
         yield [col, row]
-        if d >= 0:
+        if d < 0:
             col += 1
-            d -= _4b_sqr * col
-        d += _2a_sqr * (3 + (row << 1))
+            d += _4b_sqr * col
+        d += _2a_sqr * (3 - (row << 1))
         row -= 1
+    while col <= a:
+        yield [col, 0]
+        col += 1
 
 
 def iterellipse(x: int, y: int,
-- 
2.43.0


From 29975e6f3c1f7bcd39b6cf529abd6c39ca74a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 24/45] fix: packing a list of bits put every bit one place too
 low, so enlarged 1-bit images were scrambled

---
 pythonbmp/bufresize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 9866df0..32eeeb9 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -94,7 +94,7 @@ def packbitlisttobuf(blist: list[int]
     b = 0
     while i < j:
         m = i % 8
-        b += blist[i - 1] << (7 - m)
+        b += blist[i - 1] << (7 - (i - 1) % 8)
         if m == 0 and i > 1:
             retval += [b]
             b = 0
-- 
2.43.0


From 6be997c205c957f9c16c7984aa912537a17979d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 25/45] fix: rows ending within a byte lost their last pixels
 when a 1- or 4-bit image was enlarged, upgraded or copied up to its right
 edge

---
 pythonbmp/BITMAPlib.py |  4 ++--
 pythonbmp/bufresize.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 9abb433..216f899 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7559,7 +7559,7 @@ def upgradeto24bitimage(bmp: array):
                         0, 0, mx, my):
             BMPbitBLTput(nbmp, offset,
                 convertbufto24bit(buf,
-                    bgrpal, bits))
+                    bgrpal, bits)[:3 * (mx + 1)])
             offset += r
     return nbmp
 
@@ -8913,7 +8913,7 @@ def resizeNtimesbigger(
     r = _xchrcnt(nbmp)
     for buf in itercopyrect(bmp, 0, 0,
                         mx, my):
-        nbuf = resizebufNtimesbigger(buf, n, bits)
+        nbuf = resizebufNtimesbigger(buf, n, bits)[:r]
         for _ in range(n):
             BMPbitBLTput(nbmp, offset, nbuf)
             offset += r
diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 32eeeb9..5abe439 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -28,6 +28,8 @@ from .buffersplit import(
 
 from .colors import makeBGRbuf
 
+from .inttools import readint
+
 
 def adjustbufsize(
       bufsize: int, bits: int) -> int:
@@ -72,8 +74,15 @@ def adjustxbufsize(bmp: array,
     Returns:
         int adjusted buffer size
     """
-    return adjustbufsize(x2 - x1 + 1,
-                            bmp[28])
+    dx = x2 - x1 + 1
+    bits = bmp[28]
+    bufsize = adjustbufsize(dx, bits)
+    # a row can end within a byte
+    if x2 + 1 == readint(18, 4, bmp) and \
+       (bits == 1 and dx & 7 or
+        bits == 4 and dx & 1):
+        bufsize += 1
+    return bufsize
 
 
 def packbitlisttobuf(blist: list[int]
-- 
2.43.0


From f41e978d7863c74c179553c77bb3c70e6403defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 26/45] fix: copy circular regions pixel by pixel at 1 and 4
 bits

---
 pythonbmp/BITMAPlib.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 216f899..7c76693 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2600,8 +2600,13 @@ def copycircregion2buf(bmp: array,
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
-        copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
-                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
+        if copybuf[0] < 8:
+            copybuf += [[array('B', (getxybit(bmp, x0, y0)
+                          for x0 in range(x1, x2)))
+                            for y0 in (y1, y2)]]
+        else:
+            copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
+                         bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
     return copybuf
 
 
@@ -2635,10 +2640,15 @@ def pastecirularbuf(bmp: array,
                 for i, (v0, v1) in enumerate(itercirclepartlineedge(r), start=2):
                     x1, x2 = mirror(x, v0)
                     y1, y2 = mirror(y, v1)
-                    bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-                        circbuf[i][0]
-                    bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-                        circbuf[i][1]
+                    if circbuf[0] < 8:
+                        for y0, buf in zip((y1, y2), circbuf[i]):
+                            for x0, color in enumerate(buf, start=x1):
+                                plotxybit(bmp, x0, y0, color)
+                    else:
+                        bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
+                            circbuf[i][0]
+                        bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
+                            circbuf[i][1]
             else:
                 raise ValueError(sysmsg['bitsnotequal'])
         else:
-- 
2.43.0


From 8e2d0875ffc5c5430911c8a710215c7e341eb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 27/45] fix: flip the axes of circular regions pixel by pixel
 at 1 and 4 bits

---
 pythonbmp/BITMAPlib.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7c76693..2861862 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2753,16 +2753,12 @@ def flipXYcircregion(bmp: array,
     bits = bmp[bmpcolorbits]
     c = _getBMoffhdfunc(bmp)
     if bits not in [24, 8]:
-        n = flipXY(bmp)
+        n = bmp[:]
         for (v0, v1) in itercirclepartlineedge(r):
-            x3, x4 = mirror(y, v0)
-            y3, y4 = mirror(x, v1)
-            x1, x2 = mirror(x, v0)
-            y1, y2 = mirror(y, v1)
-            bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-              n[c(n, x3, y3): c(n, x4, y3)]
-            bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-              n[c(n, x3, y4): c(n, x4, y4)]
+            for dx in range(-v0, v0 + 1):
+                for dy in (-v1, v1):
+                    plotxybit(bmp, x + dx, y + dy,
+                        getxybit(n, x + dy, y + dx))
     else:
         buf = []
         for (v0, v1) in itercirclepartlineedge(r):
-- 
2.43.0


From 65863159920b52006ecca3ee0bcea9f5812fafe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 28/45] fix: brightness gradients of circles of radius 0
 divided by zero

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2861862..1d085bc 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3101,7 +3101,7 @@ def vertbrightnessgrad2circregion(
     c = _getBMoffhdfunc(bmp)
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (2 * r)
+    dl = delta(lumrange) / (2 * r or 1)
     b = y - r
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
@@ -3137,7 +3137,7 @@ def horibrightnessgrad2circregion(
     """
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (2 * r)
+    dl = delta(lumrange) / (2 * r or 1)
     b = x - r
     for (v0, v1)  in itercirclepartvertlineedge(r):
         x1, x2 = mirror(x, v0)
-- 
2.43.0


From 8d4462d6a94877d82db71e4cab1619ace57590af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 29/45] fix: pixelizing a circular region changed the file
 length when the image is not made of whole blocks

---
 pythonbmp/BITMAPlib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1d085bc..82e8755 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12483,11 +12483,15 @@ def pixelizenxncircregion(bmp: array,
     """
     b = pixelizenxn(bmp, n)
     c = _BMoffsethd
+    mx, my = getmaxxy(b)
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
-        y1, y2 = mirror(y, v1)
-        bmp[c(bmp, x1, y1): c(bmp, x2, y1)], bmp[c(bmp, x1, y2): c(bmp,x2,y2)]= \
-        b[c(b, x1, y1): c(b, x2, y1)], b[c(b, x1, y2): c(b, x2, y2)]
+        x2 = setmax(x2, mx)
+        for y0 in mirror(y, v1):
+            # b has whole blocks only
+            if x1 < x2 and y0 < my:
+                bmp[c(bmp, x1, y0): c(bmp, x2, y0)] = \
+                    b[c(b, x1, y0): c(b, x2, y0)]
 
 
 @func24bitonly
-- 
2.43.0


From a75e50779bfb39e585fbb853fdddcb198ac7d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 30/45] fix: circular operations on circles beside the image
 changed other pixels or the length of the file

---
 pythonbmp/BITMAPlib.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 82e8755..66fbea9 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2507,11 +2507,11 @@ def _usenopar24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
-            if isinrange(y2, ymax, -1):
+            if x1 < x2 and isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1 ,y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
-            if isinrange(y1, ymax, -1) and y2 != y1:
+            if x1 < x2 and isinrange(y1, ymax, -1) and y2 != y1:
                 s1 = c(bmp, x1, y1)
                 e1 = c(bmp, x2, y1)
                 bmp[s1: e1] = func(bmp[s1: e1])
@@ -2565,12 +2565,12 @@ def _use24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
-            if isinrange(y2, ymax, -1):
+            if x1 < x2 and isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = \
                     func(bmp[s2: e2], funcparam)
-            if isinrange(y1, ymax, -1) and y2 != y1:
+            if x1 < x2 and isinrange(y1, ymax, -1) and y2 != y1:
                 s1 = c(bmp, x1, y1)
                 e1 = c(bmp, x2, y1)
                 bmp[s1: e1] = \
@@ -2726,11 +2726,11 @@ def _usenoparfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
-            if isinrange(y2, ymax, -1):
+            if x1 < x2 and isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
-            if isinrange(y1, ymax, -1) and y2 != y1:
+            if x1 < x2 and isinrange(y1, ymax, -1) and y2 != y1:
                 s1 = c(bmp, x1, y1)
                 e1 = c(bmp, x2, y1)
                 bmp[s1: e1] = func(bmp[s1: e1])
@@ -3205,7 +3205,7 @@ def outlinecircregion(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
-            if isinrange(y2, ymax, -1):
+            if x1 < x2 and isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
                 if bits == 24:
@@ -3218,7 +3218,7 @@ def outlinecircregion(bmp: array,
                     array('B',
                       xorvect(bmp[s2: e2],
                       bmp[s2 + 1: e2 + 1]))
-            if isinrange(y1, ymax, -1) and y2 != y1:
+            if x1 < x2 and isinrange(y1, ymax, -1) and y2 != y1:
                 s1 = c(bmp, x1, y1)
                 e1 = c(bmp, x2, y1)
                 if bits == 24:
-- 
2.43.0


From 42b33ade657171f1e686507bceb48ad49e91264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 31/45] fix: gradient ellipses painted outside the ellipse when
 one axis is shorter than the other

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 66fbea9..87d1a6a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3887,7 +3887,7 @@ def gradellipse(bmp: array,
                     int2RGBarr(c),
                     getallRGBpal(bmp))
         ellipse(bmp, x, y,
-        b + i, a + i, c, True)
+        max(b + i, 0), max(a + i, 0), c, True)
 
 
 @intcircleparam
-- 
2.43.0


From ca7cf5d081df01bd84ea3b44d9fcb4535f38325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 32/45] fix: multifractals at 8 bits overwrote the palette or
 raised when the region leaves the image

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 87d1a6a..08f912f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9158,7 +9158,7 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = c
+            plotxybit(bmp, x, y, c)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
@@ -9216,7 +9216,7 @@ def plotmultifractalcomplexpar(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = v
+            plotxybit(bmp, x, y, v)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-- 
2.43.0


From af987ebc0ac647e8177495fe87089a1d58a15d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 33/45] fix: superellipse fractals raised TypeError at 4 and 8
 bits (their counts have fractions)

---
 pythonbmp/BITMAPlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 08f912f..bbf3915 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9158,19 +9158,19 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 1:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c % maxcolors)
+            plotxybit(bmp, x, y, int(c) % maxcolors)
     else:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, (mcolor - c) % maxcolors)
+            plotxybit(bmp, x, y, (mcolor - int(c)) % maxcolors)
 
 
 def plotmultifractalcomplexpar(bmp: array,
-- 
2.43.0


From 6b5ffe902d9b4cdbfabcaf739ca82f8ad710f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:55 +0000
Subject: [PATCH 34/45] fix: filled arcs and pie charts with a slice thinner
 than a pixel raised IndexError

---
 pythonbmp/solids3D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 2bfbe2a..bfd4b74 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -360,6 +360,8 @@ def fillpolydata(
         bounds
     """
     filld = {}
+    if not polybnd:
+        return filld
     ((minx, miny), (maxx, maxy)) = \
     rectboundarycoords(polybnd)
     maxx += 1
-- 
2.43.0


From 6144f3f07d2a00f36bda5dd98fac1aa140feb34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 35/45] fix: arcs of radius 0 divided by zero

---
 pythonbmp/primitives2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index bbb9d75..4ec342d 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -619,6 +619,8 @@ def arcvert(x: int, y: int, r: int,
         list of vertices of the arc
         list[[x: int, y: int]]
     """
+    if r == 0:
+        return [[x, y]]
     v = []
     tol = 0.03
     c = (x, y)
-- 
2.43.0


From a70ee824310540b069a54ad647257928ca8f5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 36/45] fix: sideways text in several colours skipped eight
 colours per row

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index bbf3915..42678f5 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4896,11 +4896,11 @@ def plot8bitpatternsidewaywithfn(
                         fn(bmp, x, y, inc, cl)
                 mask >>= 1
                 y -= scale
-                colorind += 1
-                if colorcnt == colorind:
-                    colorind = 0
             x += scale
             y = oy
+            colorind += 1
+            if colorcnt == colorind:
+                colorind = 0
 
 
 def plotitalic8bitpatternsidewaywithfn(
-- 
2.43.0


From 2e4cf8488116368da92bebd0c3cc024cc99964c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 37/45] fix: the south pole of a sphere was not moved to its
 centre

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index bfd4b74..9c3d7cb 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -482,7 +482,7 @@ def spherevert(vcen: list[float,
                            radians(phi)]))
             if p not in plist:
                 plist.append(p)
-    p = [0, 0, -r]
+    p = addvect(vcen, [0, 0, -r])
     if p not in plist:
         plist.append(p)
     return plist
-- 
2.43.0


From 048c2b3bc97834a777e436ad22779c9fe0470c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 38/45] fix: regular polygons whose number of sides does not
 divide 360 had the wrong number of sides

---
 pythonbmp/primitives2D.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 4ec342d..6c1f1a9 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -505,11 +505,9 @@ def floatregpolygonvert(
     """
     v = []
     angle = radians(angle)
-    anginc = 360 // sides
-    maxang = 360
     q = complex(cx, cy)
-    for a in range(0, maxang, anginc):
-        ang = angle + radians(a)
+    for i in range(sides):
+        ang = angle + radians(360 * i / sides)
         z = q - r * complex(sin(ang), cos(ang))
         v.append([z.real, z.imag])
     return v
-- 
2.43.0


From 049732d671aa437ab10aae8c41b17c7bc03c9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:55 +0000
Subject: [PATCH 39/45] fix: surface plots whose width is no multiple of the
 step joined the wrong vertices

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 9c3d7cb..d7b6ecf 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -707,7 +707,7 @@ def surfplot3Dvertandsurface(
         for x in range(x1, x2, step):
             z = fnxy(x, y)
             vlist.append([x, y, z])
-    dx = abs(x2 - x1) // step
+    dx = len(range(x1, x2, step))
     dx1 = dx - 1
     vl = len(vlist)
     for v in vlist:
-- 
2.43.0


From 7d91a179d687372f6cd2e3917b893dcd627712f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:04 +0000
Subject: [PATCH 40/45] fix: the involute of a circle was a spiral that starts
 at the centre

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 6c1f1a9..ef3f70b 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1061,7 +1061,7 @@ def itercircleinvolute(
     b = complex(x, y)
     while t < lim:
         z = rect(1, t)
-        z *= a * z * t * 1j
+        z *= a * (1 - t * 1j)
         t += delta
         z += b
         yield (round(z.real),
-- 
2.43.0


From 8a892fd45a1779a77c344facd11ce612c56d08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:12 +0000
Subject: [PATCH 41/45] fix: the pen of a hypotrochoid turned in the wrong
 direction

---
 pythonbmp/primitives2D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index ef3f70b..92449ec 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1190,12 +1190,12 @@ def iterhypotrochoid(
         [[x: int, y: int], ...]
     """
     p = a - b
-    d = (a / b) + 1
+    d = (a / b) - 1
     t = 0
     q = complex(x, y)
     while t < lim:
-        z = rect(p, t) - \
-            rect(c, d * t) + q
+        z = rect(p, t) + \
+            rect(c, -d * t) + q
         t += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From bc682b1b973472719a8701e7f38cf6974ac10129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:20 +0000
Subject: [PATCH 42/45] fix: the pen of a spirograph turned in the wrong
 direction

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 92449ec..45b9338 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -931,7 +931,7 @@ def iterspirograph(
     q = complex(x, y)
     while a < lim:
         z = r * (rect(d, a) + \
-                 rect(e, a * f)) + q
+                 rect(e, -a * f)) + q
         a += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From 16702f806fa8d4599c741521ff1099b593772ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:28 +0000
Subject: [PATCH 43/45] fix: Bezier curves left out their last control point

---
 pythonbmp/primitives2D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 45b9338..d130f1f 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -356,11 +356,11 @@ def iterbeziercurve(
     klim = cnt << 2
     for i in range(cnt):
         if i > cnt - 2:
-            last = i - 1
-            for k in range(klim):
+            last = i
+            for k in range(klim + 1):
                 u = k / klim
                 v = [0, 0]
-                for j in range(i):
+                for j in range(cnt):
                     v = addvect(v,
                          scalarmulvect(
                                 pntlist[j],
-- 
2.43.0


From 3f577c0fac132390819988987d25c6b835210c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:37 +0000
Subject: [PATCH 44/45] fix: isorthogonal missed orthogonal vectors whose
 products do not all vanish

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 79939a9..4c7e22d 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -633,7 +633,7 @@ def isorthogonal(
                 so they are
                 nonorthogonal vectors
     """
-    return vectiszero(mulvect(u, v))
+    return dotprod(u, v) == 0
 
 
 def crossprod3d(
-- 
2.43.0


From 0e00ec479bc68128f618670b3be5b0dd3b469f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:49 +0000
Subject: [PATCH 45/45] fix: the rotation term of the symmetric icon attractor
 broke its symmetry

---
 pythonbmp/fractals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/fractals.py b/pythonbmp/fractals.py
index 7dea57a..08682fc 100644
--- a/pythonbmp/fractals.py
+++ b/pythonbmp/fractals.py
@@ -2167,7 +2167,7 @@ def symmetriciconattractorlist(
         v[i] = z = (a * abs(z * c) + l + \
         b * (z.real * p.real - \
              z.imag * p.imag)) * z + \
-        (g * p).conjugate() - o * c * 1j
+        (g * p).conjugate() + o * z * 1j
     return v
 
 
-- 
2.43.0

