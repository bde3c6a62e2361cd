From 7dee70212222292c8dff355a58beea3734b0d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 01/31] fix: Longman tide: use UTC hours for time stamps in
 other zones

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7cc7ec9..06dd2f9 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -33,6 +33,7 @@ def _convert_datetime_tidetime(timestamp):
     dt = timestamp - origin_time
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
+    timestamp = timestamp.astimezone(timezone.utc)  # hours are counted in UTC
     julian_hour = (timestamp.hour + timestamp.minute /
                    60. + timestamp.second/3600.)
 
-- 
2.43.0


From 1e18d6fb39408996963deb8130d6f036f5a1ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 02/31] fix: cross-coupling fit: keep the last section and the
 last sample of each section

---
 shipgrav/grav.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 06dd2f9..6e67f3b 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -372,9 +372,9 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.where(tdiff > 5*samplerate)[0]
+            end_inds = np.append(np.where(tdiff > 5*samplerate)[0] + 1, len(faa_in))
 
-    end_inds = np.append(-1, end_inds)  # add starting point
+    end_inds = np.append(0, end_inds)  # add starting point
 
     faa_tf = np.array([])
     vcc_tf = np.array([])
@@ -384,12 +384,12 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
     le_tf = np.array([])  # things to fit
 
     for i in range(1, len(end_inds)):  # loop continuous-time segments
-        faa = faa_in[end_inds[i-1]+1:end_inds[i]]
-        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]]
-        ve = ve_in[end_inds[i-1]+1:end_inds[i]]
-        al = al_in[end_inds[i-1]+1:end_inds[i]]
-        ax = ax_in[end_inds[i-1]+1:end_inds[i]]
-        level = level_in[end_inds[i-1]+1:end_inds[i]]
+        faa = faa_in[end_inds[i-1]:end_inds[i]]
+        vcc = vcc_in[end_inds[i-1]:end_inds[i]]
+        ve = ve_in[end_inds[i-1]:end_inds[i]]
+        al = al_in[end_inds[i-1]:end_inds[i]]
+        ax = ax_in[end_inds[i-1]:end_inds[i]]
+        level = level_in[end_inds[i-1]:end_inds[i]]
         if len(faa) < 1000:
             continue  # no point for very short segments
         # double derivatives with taylor series
-- 
2.43.0


From ae6d825b8554e55d246808fa1df46c54ad0ef178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 03/31] fix: grav1d_padded: true wavenumbers for profiles with
 an odd number of points

---
 shipgrav/grav.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 6e67f3b..592a9c8 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -658,14 +658,8 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
     nxt = len(padtopo)
-    mfx = (nxt/2.) + 1
 
-    k = (2*np.pi)/(nxt*dx)  # calculate wavenumbers
-    k2 = k**2
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[-2:0:-1])
-    xxk = (xi-1)*(xi-1)*k2
-    kwn1 = np.sqrt(xxk[:nxt])
+    kwn1 = 2*np.pi*abs(np.fft.fftfreq(nxt, dx))  # calculate wavenumbers
 
     Ftopo = np.fft.fft(padtopo)  # Fourier transform the topography
     Ftopo[0] = 0
-- 
2.43.0


From cc606db902d1c4b811c59632d586e6cd60f8532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 04/31] fix: grav2d_folding: grids with an odd number of points
 without folding

---
 shipgrav/grav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 592a9c8..2daa1b1 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -761,11 +761,11 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
 
     # wavenumbers:
     yj1 = np.arange(1, mfy+1)
-    yj = np.append(yj1, yj1[mfy-2:0:-1])
+    yj = np.append(yj1, yj1[nyt-mfy:0:-1])
     yyk = (yj-1)*(yj-1)*ky2
 
     xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[mfx-2:0:-1])
+    xi = np.append(xi1, xi1[nxt-mfx:0:-1])
     xxk = (xi-1)*(xi-1)*kx2
 
     kwn1 = np.zeros((nxt, nyt))
-- 
2.43.0


From 798afc62c83c9612b07e8cf3b16953b95bab70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 05/31] fix: crustal_thickness_2D: wavenumbers were off by one
 index

---
 shipgrav/grav.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 2daa1b1..deb295f 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1199,15 +1199,15 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
 
     kwn1 = np.zeros((nx, ny))  # compute wavenumbers in 2D
     for j in range(ny):
-        yj = j
-        if j > mfy:
-            yj = mfy*2 - j
+        yj = j + 1
+        if yj > mfy:
+            yj = mfy*2 - yj
         yyk = kint2**2 * (yj-1)**2
 
         for i in range(nx):
-            xi = i
-            if i > mfx:
-                xi = mfx*2 - i
+            xi = i + 1
+            if xi > mfx:
+                xi = mfx*2 - xi
             xxk = kint1**2 * (xi-1)**2
 
             kwn1[i, j] = np.sqrt(xxk + yyk)
-- 
2.43.0


From c931eec4a9a9ee1655e858febf080cbb11cf943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 06/31] fix: right click without picks in _SnappingCursor no
 longer raises

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 46b5322..f2ba248 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -269,7 +269,7 @@ class _SnappingCursor:
             self.i_seg.append(ind_x)
             self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
 
-        if event.button == 3:  # pop the last element of the lists
+        if event.button == 3 and self.i_seg:  # pop the last element of the lists
             self.x_seg.pop()
             self.y_seg.pop()
             self.i_seg.pop()
-- 
2.43.0


From 9310f087ccb4c6550eaeba31e41d46f04cb0f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 07/31] fix: clean_ini_to_toml keeps values with an equals sign
 and inline comments, accepts lines without one

---
 shipgrav/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index f2ba248..28456f9 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -146,11 +146,15 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
 
-        val = ln.split('=')[1]  # get value from key=value pair
+        if '=' not in ln:  # not a key=value pair, nothing to fix
+            fo.write(ln)
+            fo.write('\n')
+            continue
+
+        key, val = ln.split('=', 1)  # get value from key=value pair
         extra_comm = ''
         if '#' in val:
-            val = val.split('#')[0]
-            extra_comm = '='.join(val.split('#')[1:])
+            val, extra_comm = val.split('#', 1)
         val = val.strip()
 
         if val == 'true' or val == 'false':  # skip bools
@@ -165,7 +169,7 @@ def clean_ini_to_toml(ini_file):
             float(val)
         except:
             val = "\"" + val + "\""
-            ln = '= '.join((ln.split('=')[0], val))
+            ln = '= '.join((key, val))
             if extra_comm != '':
                 ln = '   #'.join((ln, extra_comm))
         fo.write(ln)
-- 
2.43.0


From 1719ac94695abfec1f5be8a67d197e24a1745118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 08/31] fix: clean_ini_to_toml leaves TRUE, FALSE and // inside
 other text alone

---
 shipgrav/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 28456f9..737a061 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -121,16 +121,12 @@ def clean_ini_to_toml(ini_file):
     with open(ini_file, 'r') as file:
         text = file.read()  # just read the whole thing
 
-    # fix comments (// to #)
-    text = re.sub('//', '#', text)
+    # fix comments (// to #), but leave quoted strings alone
+    text = re.sub(r'("[^"\n]*")|//', lambda m: m.group(1) or '#', text)
 
     # clean out tabs
     text = re.sub('\t', '  ', text)
 
-    # fix TRUE and FALSE
-    text = re.sub('TRUE', 'true', text)
-    text = re.sub('FALSE', 'false', text)
-
     text = re.sub('$', '', text)
 
     # fix unquoted strings and write
@@ -157,6 +153,9 @@ def clean_ini_to_toml(ini_file):
             val, extra_comm = val.split('#', 1)
         val = val.strip()
 
+        if val == 'TRUE' or val == 'FALSE':  # fix TRUE and FALSE
+            ln = key + '=' + ln[len(key)+1:].replace(val, val.lower(), 1)
+            val = val.lower()
         if val == 'true' or val == 'false':  # skip bools
             fo.write(ln)
             fo.write('\n')
-- 
2.43.0


From 8f01307a8cc908ec78cc62b9ef69811327006150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 09/31] fix: keep fractions of a second of any length in
 navigation clocks

---
 shipgrav/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 4d16fab..6e9ecf6 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -166,9 +166,10 @@ def _clock_time(allnav, talker):
             post = post[1:]
         hour[i] = int(post[0][:2])   # hour
         mint[i] = int(post[0][2:4])  # min
-        sec0 = float(post[0][4:])  # sec.msec
-        msec[i] = int(int(str(sec0).split('.')[-1])*1e4)  # msec
-        sec[i] = int(str(sec0).split('.')[0])  # sec
+        sec0, _, frac = post[0][4:].partition('.')  # sec.fraction
+        sec[i] = int(sec0)  # sec
+        # fraction of a second, for any number of digits -> microseconds
+        msec[i] = int(frac[:6].ljust(6, '0'))
 
     return hour, mint, sec, msec
 
-- 
2.43.0


From 6d996fb3ff8fa5f9278bbfcdde135ee19c54f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 10/31] fix: date line crossings no longer fail on read-only
 longitudes

---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 6e9ecf6..50ebf0f 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -356,7 +356,7 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
-    newlon = gps_nav['lon'].values
+    newlon = gps_nav['lon'].values.copy()
 
     if sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
@@ -372,7 +372,7 @@ def _clean_180cross(gps_nav):
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-    gps_nav = gps_nav.replace({'lon': newlon})
+    gps_nav = gps_nav.assign(lon=newlon)
 
     return gps_nav
 
-- 
2.43.0


From dca0ab00bddf4d45b54f41d434d5e4c20e7370a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 11/31] fix: keep positions beside gaps in navigation data

---
 shipgrav/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 50ebf0f..bc0ae27 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -368,9 +368,11 @@ def _clean_180cross(gps_nav):
     if len(ilocs) % 2 != 0:  # these are not paired, so one must be an end?
         pass
     else:  # pairs of indices for jump out and back
-        for i in ilocs[::2]:  # assume nice pairwise
-            # ad hoc duplication, not great
-            newlon[i+1] = (newlon[i] + newlon[i+2])/2
+        for i, j in zip(ilocs[::2], ilocs[1::2]):  # assume nice pairwise
+            # only a point that jumps out and straight back; otherwise it's a gap in the data
+            if j == i+1 and abs(newlon[j+1] - newlon[i]) <= 1:
+                # ad hoc duplication, not great
+                newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
     gps_nav = gps_nav.assign(lon=newlon)
 
-- 
2.43.0


From e276f36d22c131036ba3fcc2ce1182fed5bff69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 12/31] fix: gaps in navigation data near Greenwich are not
 date line crossings

---
 shipgrav/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index bc0ae27..ebc1e45 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -358,7 +358,9 @@ def _clean_180cross(gps_nav):
 
     newlon = gps_nav['lon'].values.copy()
 
-    if sum(lpos) > sum(lneg):
+    if not np.any(abs(np.diff(newlon)) > 180):
+        pass  # gaps only (maybe across 0*), the track does not reach +/- 180*
+    elif sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
     else:
         newlon[lpos] = -180 + newlon[lpos] % -180
-- 
2.43.0


From 3a86b8b0affaded78da3ee8f48847e98bb7df11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 13/31] fix: nav files without the talker give -999 for every
 ship

---
 shipgrav/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index ebc1e45..a5a6b9e 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -82,6 +82,9 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
         if ship_function:  # use a user-supplied function to get all the things
             lon, lat, timest = ship_function(allnav, talker)
         else:
+            if not any(talker in s for s in allnav):
+                print('no %s sentences in nav file %s' % (talker, fpath))
+                return -999
             if ship == 'Atlantis':
                 lon, lat = _navcoords(allnav, talker)
                 timest = _navdate_Atlantis(allnav, talker)
-- 
2.43.0


From 59b5bfcc38ee7a0e2d44762a8d66cd46c23a10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 14/31] fix: Ride nav talkers without known times give -999

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index a5a6b9e..99e80d8 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -285,7 +285,7 @@ def _navdate_Ride(allnav, talker):
     inav = [talker in s for s in allnav]  # find lines of file with this talker
     subnav = allnav[inav]  # select only those lines
     N = len(subnav)
-    if N == 0:
+    if N == 0 or talker not in ('INGGA', 'GPGGA'):  # no (known) times for this talker
         return -999
     # array for timestamps, as datetime objects
     timest = np.empty(N, dtype=datetime)
-- 
2.43.0


From e04b1106ebdac7fa66c0efe1654df73f67d83371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 15/31] fix: meter counters in raw DGS files are not time
 stamps

---
 shipgrav/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 99e80d8..8812aaa 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -723,7 +723,8 @@ def _dgs_raw_general(path):
                       usecols=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18))
 
     conv_times = True  # assume column 18 is actually timestamps
-    if str(dat.iloc[0].timestamp).startswith('1'):  # 1 Hz, 1 second
+    stamp = str(dat.iloc[0].timestamp)
+    if stamp.startswith('1') or len(stamp) < 14:  # 1 Hz, 1 second; or a counter
         conv_times = False  # clock not synced, so don't try to convert to stamp
 
     if conv_times:  # probably UTC stamps
-- 
2.43.0


From 9aac3305c1c5fc23705291f87049880f0bab4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 16/31] fix: read the last line of feed files

---
 shipgrav/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 8812aaa..a87370b 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -832,11 +832,10 @@ def read_other_stuff(yaml_file, data_file, tag):
     lines = []
     s.seek(0)
     # get line, bytes->string, strip \r\n from end
-    ln = s.readline().decode('ascii').rstrip()
     while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
+        ln = s.readline().decode('ascii').rstrip()
         if tag in ln:
             lines.append(ln)
-        ln = s.readline().decode('ascii').rstrip()  # next!
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From 3c098edbfe06584946f66ce2a52129692385269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 17/31] fix: lines that only mention a feed's name are not
 sentences of it

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index a87370b..9fbd00d 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -834,7 +834,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     # get line, bytes->string, strip \r\n from end
     while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
         ln = s.readline().decode('ascii').rstrip()
-        if tag in ln:
+        if dtag in ln:
             lines.append(ln)
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
-- 
2.43.0


From 27fd562fbf5387bd8e9697da31e0ad6c9fc871bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 18/31] fix: empty first fields of a feed sentence no longer
 shift its columns

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 9fbd00d..7069e6f 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -841,7 +841,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     # split into pre-tag (might be '') and post-tag
     tagsplit = [e.split(dtag) for e in lines]
     # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
-    named_fields = [tagsplit[i][1].strip(',').split(
+    named_fields = [tagsplit[i][1].removeprefix(',').rstrip(',').split(
         ',') for i in range(len(tagsplit))]
 
     # make a dataframe, using yaml and including any timestamp-like info that might be before the tag
-- 
2.43.0


From f2b1cb53d50ad64c4b2076b4c8cbb912a1ec7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 19/31] fix: empty last fields in every sentence of a feed

---
 shipgrav/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 7069e6f..e493d61 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -848,6 +848,8 @@ def read_other_stuff(yaml_file, data_file, tag):
     # Note that the format of the lines we're working with is usually some variation on:
     # [date/timestamp, maybe], $TAG, comma, separated, fields, listed, in, yaml
     colnames = re.sub('{|}', '', ym['format'][tag]).split(',')[1:]
+    # fields that are empty at the end of a sentence
+    named_fields = [f + ['']*(len(colnames) - len(f)) for f in named_fields]
     df = pd.DataFrame(named_fields, columns=colnames)
     df['mystery'] = [tagsplit[i][0]
                      for i in range(len(tagsplit))]  # any pre-tag stuff
-- 
2.43.0


From d5d9487d2c1439c3123cdfa3aef5a1c452ed7b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 20/31] fix: date navigation fixes around midnight by the day
 nearest to the logger's clock

---
 shipgrav/io.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index e493d61..94a5f6a 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -1,7 +1,7 @@
 import mmap
 import os
 import re
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 
 import numpy as np
 import pandas as pd
@@ -177,6 +177,27 @@ def _clock_time(allnav, talker):
     return hour, mint, sec, msec
 
 
+def _nearest_day(stamp, logged):
+    """Shift a timestamp to the day that is closest to the logger's clock.
+
+    Dates come from the logger and clock times from the talker string, and around midnight
+    those can be on different days.
+
+    :param stamp: logger's date + clock time from the talker string
+    :type stamp: datetime.datetime
+    :param logged: string that includes the logger's clock time
+    :type logged: string
+    """
+    clock = re.search(r'(\d{2}):\d{2}:\d{2}[^:]', logged)
+    if clock is not None:
+        ahead = stamp.hour - int(clock.group(1))
+        if ahead > 12:
+            stamp -= timedelta(days=1)
+        elif ahead < -12:
+            stamp += timedelta(days=1)
+    return stamp
+
+
 def _navdate_Atlantis(allnav, talker):
     """Extract datetime info from Atlantis nav files (at*.GPS).
     """
@@ -196,6 +217,7 @@ def _navdate_Atlantis(allnav, talker):
         day = int(date[2])  # day
         timest[i] = datetime(year, mon, day, hour[i], mint[i],
                              sec[i], msec[i], tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre)
     return timest
 
 
@@ -221,6 +243,7 @@ def _navdate_NBP(allnav, talker):
                                        mint[i], sec[i], msec[i]),
                                       '%Y-%j-%H:%M:%S:%f')
         timest[i] = timest[i].replace(tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre)
     return timest
 
 
@@ -243,6 +266,7 @@ def _navdate_Thompson(allnav, talker):
         day = int(date[1])
         timest[i] = datetime(year, mon, day, hour[i],
                              mint[i], sec[i], tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre)
     return timest
 
 
@@ -275,6 +299,7 @@ def _navdate_Revelle(allnav, talker):
                 day = int(date[2])
                 timest[i] = datetime(
                     year, mon, day, hour[i], mint[i], sec[i], msec[i], tzinfo=timezone.utc)
+                timest[i] = _nearest_day(timest[i], before)
                 break  # skip the rest of the stepping backwards once date is found
     return timest
 
-- 
2.43.0


From ddf271b4dc2e152b2bf556be94c74d585e520fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 21/31] fix: a fix without a position at the date line no
 longer hides the crossing

---
 shipgrav/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 94a5f6a..ab8e13a 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -142,7 +142,8 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
                                  dtype=datetime)
 
     # check if we have probable longitude jumps, try to fix them
-    ilocs = np.where(abs(np.diff(gps_nav['lon'])) > 1)[0]
+    # (fixes without a position can hide the jumps beside them, so leave those out)
+    ilocs = np.where(abs(np.diff(gps_nav['lon'].dropna())) > 1)[0]
     if len(ilocs) > 0:
         # try to get rid of +- jumps (NBP, often)
         gps_nav = _clean_180cross(gps_nav)
@@ -386,7 +387,7 @@ def _clean_180cross(gps_nav):
 
     newlon = gps_nav['lon'].values.copy()
 
-    if not np.any(abs(np.diff(newlon)) > 180):
+    if not np.any(abs(np.diff(newlon[~np.isnan(newlon)])) > 180):
         pass  # gaps only (maybe across 0*), the track does not reach +/- 180*
     elif sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
-- 
2.43.0


From 0ec405bc284a631e7d1c2eb2c8f1fad6c9a2084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 22/31] fix: raw Sikuliaq records with empty fields keep their
 other channels

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index ab8e13a..4b150a7 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -799,7 +799,7 @@ def _dgs_raw_Sikuliaq(path):
 
     # Extract relevant fields
     parts = dat['raw'].str.extract(
-        r'^\$AT1M_[^,]*,([-\d.]+),([-\d.]+),([-\d.]+),[^,]*,[^,]*,[^,]*,[^,]*,([-\d.]+),([-\d.]+),([-\d.]+),([-\d.]+),[^,]*,[^,]*,([-\d.]+),([-\d.]+)'
+        r'^\$AT1M_[^,]*,([-\d.]*),([-\d.]*),([-\d.]*),[^,]*,[^,]*,[^,]*,[^,]*,([-\d.]*),([-\d.]*),([-\d.]*),([-\d.]*),[^,]*,[^,]*,([-\d.]*),([-\d.]*)'
     )
     parts.columns = ['rgrav', 'long_a', 'crss_a', 'vcc', 've', 'al', 'ax', 'lat', 'lon']
 
-- 
2.43.0


From 13f85923807efae118af16f41f88905ec5c493df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 23/31] fix: clean_ini_to_toml escapes backslashes and quotes
 in the strings it quotes

---
 shipgrav/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 737a061..999263f 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -167,6 +167,7 @@ def clean_ini_to_toml(ini_file):
         try:
             float(val)
         except:
+            val = val.replace('\\', '\\\\').replace('"', '\\"')  # backslashes and quotes inside
             val = "\"" + val + "\""
             ln = '= '.join((key, val))
             if extra_comm != '':
-- 
2.43.0


From d6e466876661ec9548efd49c7456f46aea2c4fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 24/31] fix: clean_ini_to_toml rewrites numbers that are not
 valid in toml

---
 shipgrav/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 999263f..8d59ce2 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -165,7 +165,10 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
         try:
-            float(val)
+            num = float(val)
+            # toml numbers have no leading zeros, and digits on both sides of the point
+            if not re.fullmatch(r'[+-]?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?', val):
+                ln = key + '=' + ln[len(key)+1:].replace(val, repr(num), 1)
         except:
             val = val.replace('\\', '\\\\').replace('"', '\\"')  # backslashes and quotes inside
             val = "\"" + val + "\""
-- 
2.43.0


From b96dfd4fd77f05d1b8de9ab2d29dfe176b59fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 25/31] fix: segment picker's cross hair snaps to the closest
 sample

The cross hair and the map marker were put on the next sample to the right of
the mouse, while a click there picks the closest one.
---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 8d59ce2..107ce5e 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -251,7 +251,7 @@ class _SnappingCursor:
         else:
             self.set_cross_hair_visible(True)
             x, y = event.xdata, event.ydata
-            index = min(np.searchsorted(self.x, x), len(self.x) - 1)
+            index = np.argmin(abs(self.x - x))  # closest point, as for clicks
             if index == self._last_index:
                 return  # still on the same data point. Nothing to do.
             self._last_index = index
-- 
2.43.0


From ee3356de88335d91143182dddfa8259cc9b1aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 26/31] fix: center_diff and eotvos_full difference pandas
 columns by position

---
 shipgrav/grav.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index deb295f..91be6ea 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -226,6 +226,8 @@ def eotvos_full(lon, lat, ht, samp, a=6378137.0, b=6356752.3142):
 
     :return: **E** (*ndarray*), Eotvos correction in mGal
     """
+    lon, lat, ht = np.asarray(lon), np.asarray(lat), np.asarray(ht)
+
     We = 0.00007292115    # siderial rotation rate, radians/sec
     mps2mgal = 100000     # m/s/s to mgal
     ecc = (a-b)/a
@@ -467,6 +469,7 @@ def center_diff(y, n, samp):
 
     :return: 1st or 2nd order derivative of **y**
     """
+    y = np.asarray(y)  # pandas would align shifted slices by their labels
     if n == 1:
         return (y[2:] - y[:-2])*(samp/2)
     elif n == 2:
-- 
2.43.0


From db9ef9fc2a2131ce6af13a46df76e2a60251d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 27/31] fix: filters and models take pandas columns whose
 labels do not start at 0

---
 shipgrav/grav.py  | 3 +++
 shipgrav/utils.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 91be6ea..9883fe8 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -646,6 +646,8 @@ def grav1d_padded(xtopo, topo, zlev, rho):
 
     :return: **anom** (*ndarray*) - gravity anomaly in mgal
     """
+    xtopo, topo = np.asarray(xtopo), np.asarray(topo)
+
     G = 6.673*1e-8
     grav = 2*np.pi*G*rho
     baselev = np.mean(topo)  # mean topography for baseline
@@ -1118,6 +1120,7 @@ def therm_Z_plate(x, T, u=0.01, zL0=100.e3, Tm=1350, time=False,
     Tp, _ = therm_plate(x, z, u=u, zL0=zL0, Tm=Tm, time=time, rhom=rhom, rhow=rhow,
                         a=a, k=k)  # calculate the whole temperature field
 
+    T = np.asarray(T)
     ziso = np.zeros((len(T), len(x)))
     for i in range(len(T)):  # loop isotherms, find depths
         for j in range(len(x)):
diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 107ce5e..f00b44b 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -21,6 +21,7 @@ def gaussian_filter(x, fl):
     :return: **xfilt** (*ndarray*) - filtered time series x
     """
 
+    x = np.asarray(x)
     assert len(x) > fl, 'raw data is shorter than gaussian filter'
 
     coeffs = _gaussian_coeffs(fl)
-- 
2.43.0


From bea9af1f0ab3c65bce0753c73ac092901e5bdefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 28/31] fix: crustal_thickness_2D takes pandas columns

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 9883fe8..cc75025 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1171,6 +1171,7 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     """
     assert wlarge > wsmall, 'wlarge must be larger than wsmall'
 
+    ur = np.asarray(ur)
     ave = np.mean(ur)
 
     # shift to a new reference and convert milligal to gal
-- 
2.43.0


From c72735fe0a6bb63c85355aa4abbfb5ae547543f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 29/31] fix: free-air correction accepts lists of heights

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index cc75025..aae4aa0 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -313,6 +313,7 @@ def free_air_second_order(lat, ht, free_water=False):
 
     :return: free-air correction, mGal
     """
+    ht = np.asarray(ht)
     s2lat = np.sin(np.deg2rad(lat))**2
 
     if not free_water:
-- 
2.43.0


From b7abe2aa11037fe3ad7ffd29fe473b517d70ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 30/31] fix: tide prediction accepts lists of positions and
 altitudes

---
 shipgrav/grav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index aae4aa0..d140f6f 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -72,6 +72,8 @@ def longman_tide_prediction(lon, lat, times, alt=0, return_components=False):
     assert len(lon) == len(lat), 'lengths of input vectors must be the same'
     assert len(lon) == len(times), 'lengths of input vectors must be the same'
 
+    lon, lat, alt = np.asarray(lon), np.asarray(lat), np.asarray(alt)
+
     # convert the timestamps, referenced to Longman origin time
     T, t0 = np.empty(len(times)), np.empty(len(times))
     for i, stamp in enumerate(times):
-- 
2.43.0


From 3f887984c26cdba5517db495fb56650c53e1709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 31/31] fix: half space cooling accepts lists of distances and
 ages

---
 shipgrav/grav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index d140f6f..1e23ad1 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -930,6 +930,7 @@ def therm_halfspace(x, z, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000,
     # k = 2.e-6  # thermal diffusivity [m^2/sec]
 
     secyr = 365.25*24*3600  # seconds per year
+    x = np.asarray(x)
 
     if time:
         x = x*1e6*secyr  # convert Myr to sec
@@ -980,6 +981,7 @@ def therm_Z_halfspace(x, T, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000,
     To = 0  # surface temperature [K]
 
     secyr = 365.25*24*3600  # seconds per year
+    x = np.asarray(x)
 
     if time:
         x = x*1e6*secyr  # convert Myr to sec
-- 
2.43.0

