From e8408fb38676e1b09c0c862a80251add0236fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 01/57] fix: mrcal_write_cameramodel_file() keeps 10
 significant digits

%f keeps 6 decimals only, so small parameters (distortions, for instance) lost
some or all of their digits. The Python writer uses .10g
---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 4450142..65db75d 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6655,12 +6655,12 @@ bool mrcal_write_cameramodel_file(const char* filename,
     fprintf(fp, "  'lensmodel':  '%s',\n", lensmodel_string);
     fprintf(fp, "  'intrinsics': [ ");
     for(int i=0; i<Nparams; i++)
-        fprintf(fp, "%f, ", cameramodel->intrinsics[i]);
+        fprintf(fp, "%.10g, ", cameramodel->intrinsics[i]);
     fprintf(fp, "],\n");
     fprintf(fp, "  'imagersize': [ %u, %u ],\n",
             cameramodel->imagersize[0],
             cameramodel->imagersize[1]);
-    fprintf(fp, "  'extrinsics': [ %f, %f, %f, %f, %f, %f ]\n",
+    fprintf(fp, "  'extrinsics': [ %.10g, %.10g, %.10g, %.10g, %.10g, %.10g ]\n",
             cameramodel->rt_cam_ref[0],
             cameramodel->rt_cam_ref[1],
             cameramodel->rt_cam_ref[2],
-- 
2.43.0


From 49496d5fa8de72960e897b3fd8a60e008d4f6981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 02/57] fix: mrcal_write_cameramodel_file() reports write
 errors

The return values of fprintf() and fclose() weren't checked: with a full disk we
reported success, but wrote a truncated file
---
 mrcal.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index 65db75d..c0e617e 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6673,7 +6673,16 @@ bool mrcal_write_cameramodel_file(const char* filename,
 
  done:
     if(fp != NULL)
-        fclose(fp);
+    {
+        // Any of the writes may have failed. With buffered I/O we might only
+        // find out when flushing in fclose()
+        if(ferror(fp))
+            result = false;
+        if(0 != fclose(fp))
+            result = false;
+        if(!result)
+            MSG("Couldn't write '%s'", filename);
+    }
     return result;
 }
 
-- 
2.43.0


From 4df02a9f9a7e6af3e6839aba73d584a6b3cfd648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 03/57] fix: copying a cameramodel preserves its
 optimization_inputs

The serialized optimization_inputs are a bytes object. The copy constructor
called str() on it, which produces "b'...'": the copy couldn't decode this, and
wrote out files that couldn't be read
---
 mrcal/cameramodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index ae8a8cb..7289e73 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -875,7 +875,7 @@ ARGUMENTS
                     self._valid_intrinsics_region = None
 
                 if file_or_model._optimization_inputs_string is not None:
-                    self._optimization_inputs_string = str(file_or_model._optimization_inputs_string)
+                    self._optimization_inputs_string = bytes(file_or_model._optimization_inputs_string)
                 else:
                     self._optimization_inputs_string = None
 
-- 
2.43.0


From cc8b5c15898e140b250c89a4abd42230dbcb667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 04/57] fix: cameramodel.optimization_inputs_reset() resets the
 camera indices

icam_intrinsics and icam_extrinsics index the optimization_inputs. They survived
the reset, but didn't survive a write/read
---
 mrcal/cameramodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 7289e73..629be8d 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1957,6 +1957,10 @@ None
         '''
         self._optimization_inputs_string = None
 
+        # These index the optimization_inputs, and are meaningless without them
+        self._icam_intrinsics            = None
+        self._icam_extrinsics            = None
+
 
     def _optimization_inputs_match(self, other_model):
         if self.       _optimization_inputs_string is None:
-- 
2.43.0


From f3191d63f82c13a4205dea547aba91233f11ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 05/57] fix: a failing cameramodel.intrinsics() setter leaves
 the model as it was

If serializing the optimization_inputs or inferring icam_extrinsics failed, we
raised an exception with the new intrinsics already set, and with the old
optimization_inputs and valid_intrinsics_region still there
---
 mrcal/cameramodel.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 629be8d..2a2d510 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1586,14 +1586,16 @@ tuple where
                             icam_intrinsics,
                             icam_extrinsics)
 
-        self._imagersize = np.array(imagersize, dtype=np.int32)
-        self._intrinsics = (str(intrinsics[0]),
-                            np.array(intrinsics[1], dtype=float))
+        # I compute everything that can fail before I set anything: a call that
+        # raises must leave the object as it was
+        imagersize = np.array(imagersize, dtype=np.int32)
+        intrinsics = (str(intrinsics[0]),
+                      np.array(intrinsics[1], dtype=float))
 
+        optimization_inputs_string = None
         if optimization_inputs is not None:
-            self._optimization_inputs_string = \
+            optimization_inputs_string = \
                 _serialize_optimization_inputs(optimization_inputs)
-            self._icam_intrinsics = icam_intrinsics
 
             if icam_extrinsics is None:
                 try:
@@ -1602,11 +1604,14 @@ tuple where
                                                             **optimization_inputs)
                 except Exception as e:
                     raise Exception(f"optimization_inputs given, but icam_extrinsics not given. Inferring icam_extrinsics failed; are the cameras moving? Error: {e}")
-            self._icam_extrinsics = icam_extrinsics
-        else:
-            self._optimization_inputs_string = None
-            self._icam_intrinsics            = None
-            self._icam_extrinsics            = None
+
+        self._imagersize = imagersize
+        self._intrinsics = intrinsics
+
+        # These are all None if we have no optimization_inputs
+        self._optimization_inputs_string = optimization_inputs_string
+        self._icam_intrinsics            = icam_intrinsics
+        self._icam_extrinsics            = icam_extrinsics
 
         # New intrinsics. Previous valid-intrinsics region is no longer
         # meaningful
-- 
2.43.0


From 7bf6a02d20de20823df7242323a51cc84766d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 06/57] fix: cameramodel extrinsics setters reject arrays of
 the wrong shape

We would silently accept these, and end up with a model whose getters and
write() then failed
---
 mrcal/cameramodel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 2a2d510..ae6c7bd 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1655,7 +1655,9 @@ The rt transformation TO the reference coordinate system.
 
 
         # setter
-        self._rt_cam_ref = mrcal.invert_rt(rt.astype(float))
+        rt_cam_ref = mrcal.invert_rt(rt.astype(float))
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1696,7 +1698,9 @@ The rt transformation FROM the reference coordinate system.
 
 
         # setter
-        self._rt_cam_ref = np.array(rt, dtype=float)
+        rt_cam_ref = np.array(rt, dtype=float)
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1736,7 +1740,9 @@ If this is a getter (no arguments given), returns a a numpy array of shape
             return mrcal.invert_Rt(mrcal.Rt_from_rt(self._rt_cam_ref))
 
         # setter
-        self._rt_cam_ref = mrcal.rt_from_Rt(mrcal.invert_Rt(Rt.astype(float)))
+        rt_cam_ref = mrcal.rt_from_Rt(mrcal.invert_Rt(Rt.astype(float)))
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1776,7 +1782,9 @@ If this is a getter (no arguments given), returns a a numpy array of shape
             return mrcal.Rt_from_rt(self._rt_cam_ref)
 
         # setter
-        self._rt_cam_ref = mrcal.rt_from_Rt(Rt.astype(float))
+        rt_cam_ref = mrcal.rt_from_Rt(Rt.astype(float))
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
-- 
2.43.0


From a4889b590a4940b045de35bf864ffc48074ab00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 07/57] fix: cameramodel.write() leaves an existing file alone
 if the format can't represent the model

We truncated the file first, and only then discovered that this lens model
cannot be stored in a .cahvor or .yaml
---
 mrcal/cameramodel.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index ae6c7bd..22df3f0 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1459,15 +1459,21 @@ projection_matrix:
         elif _opencv: write_function = write_opencv
 
         if isinstance(f, str):
+            # Generate the whole output before I open the file: if the requested
+            # format can't represent this model, I will get an exception here,
+            # and I shouldn't touch a file that already exists
+            s = io.StringIO()
+            if write_function is not None:
+                write_function(s)
+            elif re.match(r".*\.cahv(or(e)?)?$", f):
+                write_cahvor(s)
+            elif re.match(r".*\.ya?ml$", f):
+                write_opencv(s)
+            else:
+                self._write( s, note )
+
             with open(f, 'w') as openedfile:
-                if write_function is not None:
-                    write_function(openedfile)
-                elif re.match(r".*\.cahv(or(e)?)?$", f):
-                    write_cahvor(openedfile)
-                elif re.match(r".*\.ya?ml$", f):
-                    write_opencv(openedfile)
-                else:
-                    self._write( openedfile, note )
+                openedfile.write(s.getvalue())
         else:
             if write_function is not None:
                 write_function(f)
-- 
2.43.0


From 5e9da83413209b0afb2faa4b669f23d3a939dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 08/57] fix: cahvor.write() to an open file writes the note

The note was dropped
---
 mrcal/cahvor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index b28248f..9d9facf 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -414,7 +414,7 @@ def write(f, m, note=None):
         with open(f, 'w') as openedfile:
             return _write(openedfile, m, note)
 
-    return _write(f, m)
+    return _write(f, m, note)
 
 def read_transforms(f):
     r'''Reads a file (a filename string, or a file-like object: an iterable
-- 
2.43.0


From ad012669b6491e74c664f3bade42b0fa2abc1602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 09/57] fix: .cahvor files with an empty valid-intrinsics
 region can be read

A (0,2) region is legal, and means "valid nowhere". We could write it to a .cahvor,
but then couldn't read the file
---
 mrcal/cahvor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index 9d9facf..13d8988 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -182,6 +182,11 @@ def _read(s, name):
               'LENSMODEL_OPENCV12',
               'VALID_INTRINSICS_REGION'):
         if i in x:
+            # An empty valid-intrinsics region is legal: it means "valid nowhere"
+            if i == 'VALID_INTRINSICS_REGION' and re.match(r'\s*$', str(x[i])):
+                x[i] = np.zeros((0,), dtype=float)
+                continue
+
             # Any data that's composed only of digits and whitespaces (no "."),
             # use integers
             if re.match(r'[0-9\s]+$', x[i]): totype = int
-- 
2.43.0


From 680bf657c0b810078c7f05680c7f6eeb39389b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 10/57] fix: reading a .cameramodel doesn't leak memory if
 mmap(file) fails

We make an anonymous mapping, and then map the file on top. If the second mmap()
failed (always for an empty file, for instance) we lost the pointer to the
anonymous mapping, and never released it
---
 cameramodel-parser.re | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index cd170da..cda4464 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -674,6 +674,7 @@ bool read_cameramodel_from_file(// output buffer. If it should be allocated,
                                 const char* filename)
 {
     int   fd                      = -1;
+    void* mapping                 = MAP_FAILED;
     char* string                  = NULL;
     bool  result                  = false;
     bool  did_set_Nintrinsics_max = false;
@@ -700,18 +701,18 @@ bool read_cameramodel_from_file(// output buffer. If it should be allocated,
     //
     // This is only needed if the file size is exactly a multiple of the page
     // size. If it isn't, then the remains of the last page are 0 anyway.
-    string = mmap(NULL,
-                  st.st_size + 1, // one extra byte
-                  PROT_READ,
-                  MAP_ANONYMOUS | MAP_PRIVATE,
-                  -1, 0);
-    if(string == MAP_FAILED)
+    mapping = mmap(NULL,
+                   st.st_size + 1, // one extra byte
+                   PROT_READ,
+                   MAP_ANONYMOUS | MAP_PRIVATE,
+                   -1, 0);
+    if(mapping == MAP_FAILED)
     {
         MSG("Couldn't mmap(anonymous) right before mmap(\"%s\")", filename);
         goto done;
     }
 
-    string = mmap(string, st.st_size,
+    string = mmap(mapping, st.st_size,
                   PROT_READ,
                   MAP_FIXED | MAP_PRIVATE,
                   fd, 0);
@@ -731,8 +732,8 @@ bool read_cameramodel_from_file(// output buffer. If it should be allocated,
                                           0);
 
  done:
-    if(string != NULL && string != MAP_FAILED)
-        munmap(string, st.st_size+1);
+    if(mapping != MAP_FAILED)
+        munmap(mapping, st.st_size+1);
     if(fd >= 0)
         close(fd);
     if(Nintrinsics_max != NULL && !did_set_Nintrinsics_max)
-- 
2.43.0


From dd7da1b81e76ab86a9ffb9712a7add7ae1ef8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 11/57] fix: the C .cameramodel reader may be called from
 multiple threads

The re2c tag variables were static, shared by all the threads: two threads
reading models at the same time could corrupt each other's results
---
 cameramodel-parser.re | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index cda4464..3f2d8c1 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -56,7 +56,8 @@ typedef struct
   UNSIGNED_INT = "0"|[1-9][0-9]*;
 */
 
-/*!stags:re2c format = 'static const char *@@;'; */
+// These are thread-local to allow multiple threads to read models at the same time
+/*!stags:re2c format = 'static __thread const char *@@;'; */
 
 static bool string_is(const char* ref, string_t key)
 {
-- 
2.43.0


From c9c6013f2c2884b80fe3789aa846cd98cf1b1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 12/57] fix: compute_chessboard_corners() doesn't deadlock if
 mrgingham fills stderr

Only stdout was being read until EOF, so a detector that wrote more than a
pipe-ful to stderr blocked forever. And if anything in the processing threw, the
detector process was left running, unreaped
---
 mrcal/calibration.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index e9c2cf8..4d02b5d 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -291,9 +291,15 @@ which mrcal.optimize() expects
                 pipe_corners_write_fd,pipe_corners_write_tmpfilename = mkstemp('.vnl')
                 sys.stderr.write(f"Will save corners to '{corners_cache_vnl}'\n")
 
-            corners_output = subprocess.Popen(args_mrgingham, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
-                                              encoding='ascii')
-            pipe_corners_read = corners_output.stdout
+            # I read both pipes until the detector exits. If I only read stdout,
+            # a detector that says enough on stderr would block forever. If
+            # anything here throws, the detector is killed and reaped
+            corners_output = subprocess.run(args_mrgingham, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
+            if corners_output.returncode != 0:
+                err = corners_output.stderr.decode('ascii', errors='replace')
+                raise Exception(f"mrgingham failed: {err}")
+            pipe_corners_read = io.TextIOWrapper(io.BytesIO(corners_output.stdout),
+                                                 encoding='ascii')
 
 
         mapping = {}
@@ -429,9 +435,6 @@ which mrcal.optimize() expects
         if corners_output is not None:
             sys.stderr.write("Done computing chessboard corners\n")
 
-            if corners_output.wait() != 0:
-                err = corners_output.stderr.read()
-                raise Exception(f"mrgingham failed: {err}")
             if pipe_corners_write_fd is not None:
                 os.close(pipe_corners_write_fd)
                 shutil.move(pipe_corners_write_tmpfilename, corners_cache_vnl)
-- 
2.43.0


From 945f49d04e767483486bfa432e07ec17a2052bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 13/57] fix: the chessboard corner cache is written atomically,
 and with errors reported

Short writes were ignored, which produced a cache that was missing data. And the
temporary file was moved from /tmp: across filesystems this is a copy, so a crash
or a full disk left a partial cache behind. And failures left temporary files
behind
---
 mrcal/calibration.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 4d02b5d..ce402fa 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -195,7 +195,6 @@ which mrcal.optimize() expects
     import os
     import fnmatch
     import subprocess
-    import shutil
     from tempfile import mkstemp
     import io
     import copy
@@ -242,9 +241,6 @@ which mrcal.optimize() expects
 
         fd_already_opened = isinstance(corners_cache_vnl, io.IOBase)
 
-        pipe_corners_write_fd          = None
-        pipe_corners_write_tmpfilename = None
-
         if corners_cache_vnl is not None and not fd_already_opened:
             if os.path.isdir(corners_cache_vnl):
                 raise Exception(f"Given cache path '{corners_cache_vnl}' is a directory. Must be a file or must not exist")
@@ -284,11 +280,6 @@ which mrcal.optimize() expects
             sys.stderr.write("Computing chessboard corners by running:\n   {}\n". \
                              format(' '.join(mrcal.shellquote(s) for s in args_mrgingham)))
             if corners_cache_vnl is not None:
-                # need to save the corners into a cache. I want to do this
-                # atomically: if the dot-finding is interrupted I don't want to
-                # be writing incomplete results, so I write to a temporary file
-                # and then rename when done
-                pipe_corners_write_fd,pipe_corners_write_tmpfilename = mkstemp('.vnl')
                 sys.stderr.write(f"Will save corners to '{corners_cache_vnl}'\n")
 
             # I read both pipes until the detector exits. If I only read stdout,
@@ -349,9 +340,6 @@ which mrcal.optimize() expects
             context = copy.deepcopy(context0)
 
         for line in pipe_corners_read:
-            if pipe_corners_write_fd is not None:
-                os.write(pipe_corners_write_fd, line.encode())
-
             if re.match(r'\s*#', line):
                 continue
             m = re.match(r'\s*(\S+)\s+(.*?)$', line)
@@ -435,9 +423,20 @@ which mrcal.optimize() expects
         if corners_output is not None:
             sys.stderr.write("Done computing chessboard corners\n")
 
-            if pipe_corners_write_fd is not None:
-                os.close(pipe_corners_write_fd)
-                shutil.move(pipe_corners_write_tmpfilename, corners_cache_vnl)
+            if corners_cache_vnl is not None:
+                # need to save the corners into a cache. I want to do this
+                # atomically: if we are interrupted I don't want to be leaving
+                # incomplete results, so I write to a temporary file and then
+                # rename when done. The temporary file is in the same directory
+                # as the cache: a rename across filesystems isn't atomic
+                fd,tmpfilename = mkstemp('.vnl', dir = corners_dir or '.')
+                try:
+                    with os.fdopen(fd,'wb') as f:
+                        f.write(corners_output.stdout)
+                    os.replace(tmpfilename, corners_cache_vnl)
+                except:
+                    os.unlink(tmpfilename)
+                    raise
         elif not fd_already_opened:
             pipe_corners_read.close()
 
-- 
2.43.0


From f7edbaac69e7eb437dfdcac26eee482a743b6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:50 +0000
Subject: [PATCH 14/57] fix: cameramodel.intrinsics() rejects imager sizes that
 don't fit into an int32

These were silently wrapped, possibly to <= 0, which produced a model that could
not be read back
---
 mrcal/cameramodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 22df3f0..2802379 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -75,6 +75,8 @@ def _validateIntrinsics(imagersize,
         raise Exception("The imagersize must be an iterable of two positive integers")
     if imagersize[0] != int(imagersize[0]) or imagersize[1] != int(imagersize[1]):
         raise Exception("The imagersize must be an iterable of two positive integers")
+    if max(imagersize[0],imagersize[1]) > np.iinfo(np.int32).max:
+        raise Exception("The imagersize must be an iterable of two positive integers that fit into 32 bits")
 
     try:
         N = len(i)
-- 
2.43.0


From f7e399349d5fc8e3bdfc3a86e8c73f2d185e34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:50 +0000
Subject: [PATCH 15/57] fix: cameramodel.intrinsics() rejects a non-integer
 icam_extrinsics

These were accepted, but produced a .cameramodel file that could not be read
back
---
 mrcal/cameramodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 2802379..5a19000 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -120,6 +120,8 @@ def _validateIntrinsics(imagersize,
             raise Exception(f"icam_intrinsics not an int. This must be an int >= 0")
         if icam_intrinsics < 0:
             raise Exception(f"icam_intrinsics < 0. This must be an int >= 0")
+        if icam_extrinsics is not None and not isinstance(icam_extrinsics, numbers.Integral):
+            raise Exception(f"icam_extrinsics not an int")
     else:
         if icam_intrinsics is not None or icam_extrinsics is not None:
             raise Exception("icam_intrinsics and icam_extrinsics make sense ONLY together with optimization_inputs")
-- 
2.43.0


From 781d731ddd7c92613a6ac2bc309836a1ee5eb88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 16/57] fix: optimize() given conflicting renamed arguments
 cleans up before raising

If both the old and new names of an argument were given, _optimize() returned
without RESET_SIGINT(), so Ctrl-C kept the default disposition forever: python
would be killed by SIGINT instead of raising KeyboardInterrupt. The arguments
were leaked also: here and in the state_index_...() and pack_state() functions
---
 mrcal-pywrap.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 86dc537..20633b3 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1689,9 +1689,9 @@ PyObject* _optimize(optimizemode_t optimizemode,
 #undef SET_NULL_IF_NONE
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
     mrcal_lensmodel_t mrcal_lensmodel;
     // Check the arguments for optimize(). If optimizer_callback, then the other
@@ -2292,9 +2292,9 @@ static PyObject* state_index_generic(callback_state_index_t cb,
 #undef CALLED_FUNCTION_BUFFER
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
     mrcal_lensmodel_t mrcal_lensmodel = {};
 
@@ -3495,9 +3495,9 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
 
     // checks dimensionality of array !IS_NULL. So if any array isn't passed-in,
-- 
2.43.0


From b5a7fdefb40fe260dc7d6d885d24663dc8e7a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 17/57] fix: SIGINT is restored properly if several python
 threads call the optimizer

Each optimize() and optimizer_callback() saved the SIGINT disposition, and then
restored it. If two such calls overlapped (these call into python code, so the
GIL may be released), the second one saved SIG_DFL set by the first one. And if
it then finished last, it left SIG_DFL set permanently
---
 python-wrapping-utilities.h | 39 ++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/python-wrapping-utilities.h b/python-wrapping-utilities.h
index d3c3b92..d9e8fa6 100644
--- a/python-wrapping-utilities.h
+++ b/python-wrapping-utilities.h
@@ -15,19 +15,44 @@ extern "C" {
 // flag, but not quit, so I can't interrupt the solver. Thus I reset the SIGINT
 // handler to the default, and put it back to the python-specific version when
 // I'm done
-#define SET_SIGINT() struct sigaction sigaction_old;                    \
-do {                                                                    \
-    if( 0 != sigaction(SIGINT,                                          \
-                       &(struct sigaction){ .sa_handler = SIG_DFL },    \
-                       &sigaction_old) )                                \
+//
+// The SIGINT disposition is process-wide, and several python threads could be in
+// here at the same time: the GIL may be released if we call into python code. So
+// the first one in sets the default handler and the last one out restores the
+// old one. This is called with the GIL held, so no other locking is needed
+static inline bool sigint_set_default(bool set)
+{
+    static struct sigaction sigaction_old;
+    static int              depth = 0;
+
+    if(set)
+    {
+        if( depth == 0 &&
+            0 != sigaction(SIGINT,
+                           &(struct sigaction){ .sa_handler = SIG_DFL },
+                           &sigaction_old) )
+            return false;
+        depth++;
+        return true;
+    }
+
+    if(depth == 0)
+        // We failed to set, so there's nothing to restore
+        return true;
+    depth--;
+    return
+        depth > 0 ||
+        0 == sigaction(SIGINT, &sigaction_old, NULL);
+}
+#define SET_SIGINT() do {                                               \
+    if(!sigint_set_default(true))                                       \
     {                                                                   \
         BARF("sigaction() failed");      \
         goto done;                                                      \
     }                                                                   \
 } while(0)
 #define RESET_SIGINT() do {                                             \
-    if( 0 != sigaction(SIGINT,                                          \
-                       &sigaction_old, NULL ))                          \
+    if(!sigint_set_default(false))                                      \
         BARF("sigaction-restore failed"); \
 } while(0)
 
-- 
2.43.0


From ea0f909d9c35dc75bb6eec1c65063598aad0e4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 18/57] fix: the state layout functions don't crash if given no
 keyword arguments

mrcal.num_states() segfaulted
---
 mrcal-pywrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 20633b3..cf47d41 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1493,7 +1493,7 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
 {
     *need_decref_kwargs = false;
 
-    if(!PyDict_Check(*kwargs))
+    if(*kwargs == NULL || !PyDict_Check(*kwargs))
         return true;
 
     PyObject* kwargs_new = PyDict_New();
-- 
2.43.0


From ceb3850bbdaf62a4edc7fa9fb3d014460c68b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 19/57] fix: saving .pgm and .ppm images reports write errors

Small images are written only in the fclose(), whose result was ignored
---
 image.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/image.c b/image.c
index ea1b289..cc95fa2 100644
--- a/image.c
+++ b/image.c
@@ -108,12 +108,16 @@ bool generic_save_pnm(const char* filename,
         return false;
     }
 
-    fprintf(fp,
-            "P%d\n%d %d\n%d\n",
-            channels == 1 ? 5 : 6,
-            image->width,
-            image->height,
-            bits_per_pixel == 16 ? 65535 : 255);
+    if(0 > fprintf(fp,
+                   "P%d\n%d %d\n%d\n",
+                   channels == 1 ? 5 : 6,
+                   image->width,
+                   image->height,
+                   bits_per_pixel == 16 ? 65535 : 255))
+    {
+        MSG("Couldn't write the header into '%s'; giving up", filename);
+        goto done;
+    }
 
     // I write each row separately, in case the rows aren't stored densely
     for(int i=0; i<image->height; i++)
@@ -131,7 +135,13 @@ bool generic_save_pnm(const char* filename,
     result = true;
 
 done:
-    if(fp != NULL) fclose(fp);
+    // Much of the data may be written only when we close the file: that failing
+    // is a failure of the whole operation
+    if(fp != NULL && 0 != fclose(fp))
+    {
+        MSG("Couldn't write '%s'", filename);
+        result = false;
+    }
     return result;
 }
 
-- 
2.43.0


From 686afd577d7fad1ec4f2be2d8adcb2c81b60fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 20/57] fix: saving .jpg images reports an error closing the
 file

---
 image.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image.c b/image.c
index cc95fa2..78e12ab 100644
--- a/image.c
+++ b/image.c
@@ -246,9 +246,13 @@ bool generic_save_jpg(const char* filename,
     }
 
     jpeg_finish_compress(&cinfo);
-    fclose(fp);
     jpeg_destroy_compress(&cinfo);
 
+    if(0 != fclose(fp))
+    {
+        MSG("Couldn't write '%s'", filename);
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From c5018926f253fad51d8f8210d01b432d549ee192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 21/57] fix: errors reading an image file are reported

A .jpg with a read error in the middle was loaded successfully, with made-up pixels
---
 image.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image.c b/image.c
index 78e12ab..343ca0c 100644
--- a/image.c
+++ b/image.c
@@ -584,6 +584,14 @@ bool generic_load(// output
         goto done;
     }
 
+    // stb treats a read error as the end of the file, and some decoders (jpg for
+    // instance) make up what's missing
+    if(ferror(fp))
+    {
+        MSG("Couldn't load image \"%s\": read error", filename);
+        goto done;
+    }
+
     image->width  = width;
     image->height = height;
     image->stride = width * (*bits_per_pixel)/8;
-- 
2.43.0


From 847710ae3d48f06bb94cf958aafe74914fdee831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 22/57] fix: 16-bit images are stretch-equalized properly if
 the first pixel is the brightest

---
 image.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/image.c b/image.c
index 343ca0c..702b4f2 100644
--- a/image.c
+++ b/image.c
@@ -397,12 +397,15 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
         for (int j=0; j<in->width; j++)
         {
             const uint16_t x = row_in[j];
-            if      (x < min) min = x;
-            else if (x > max) max = x;
+            if(x < min) min = x;
+            if(x > max) max = x;
         }
     }
 
     uint16_t max_min = max-min;
+    if(max_min == 0)
+        // All the pixels are identical. Don't divide by 0
+        max_min = 1;
 
     for(int i=0; i<in->height; i++)
     {
-- 
2.43.0


From a5a9cf60bda43314adaa0a700438f02a5372cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 23/57] fix: .png images with unusual strides are saved
 properly

libpng has its own interpretation of strides <= 0: saving an upside-down view of a
numpy array read memory outside the array
---
 image.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/image.c b/image.c
index 702b4f2..db88965 100644
--- a/image.c
+++ b/image.c
@@ -66,14 +66,41 @@ bool generic_save_png(const char* filename,
 {
     bool result = false;
 
+    const uint8_t* data         = image->data;
+    int            stride       = image->stride;
+    uint8_t*       data_dense   = NULL;
+    const int      stride_dense = image->width * bits_per_pixel/8;
+
     png_image pimage = { .version = PNG_IMAGE_VERSION,
                          .width   = image->width,
                          .height  = image->height,
                          .format  =
                              bits_per_pixel == 24 ? PNG_FORMAT_RGB :
                                  (bits_per_pixel == 16 ? PNG_FORMAT_LINEAR_Y : PNG_FORMAT_GRAY) };
-    if(!png_image_write_to_file(&pimage, filename, 0, image->data,
-                                bits_per_pixel == 16 ? image->stride/2 : image->stride,
+
+    if(stride < stride_dense ||
+       (bits_per_pixel == 16 && stride % 2))
+    {
+        // libpng interprets strides <= 0 differently from the way we do: it
+        // would read the wrong memory. And it doesn't support overlapping rows
+        // or strides that aren't a whole number of pixels. Give it a dense
+        // image instead
+        data_dense = malloc((size_t)stride_dense * image->height);
+        if(data_dense == NULL)
+        {
+            MSG("Could not malloc buffer for a dense copy of the image");
+            goto done;
+        }
+        for(int i=0; i<image->height; i++)
+            memcpy(&data_dense[(size_t)stride_dense * i],
+                   &data[(ptrdiff_t)stride * i],
+                   stride_dense);
+        data   = data_dense;
+        stride = stride_dense;
+    }
+
+    if(!png_image_write_to_file(&pimage, filename, 0, data,
+                                bits_per_pixel == 16 ? stride/2 : stride,
                                 NULL))
     {
         MSG("png_image_write_to_file('%s') failed", filename);
@@ -83,6 +110,7 @@ bool generic_save_png(const char* filename,
 
 done:
     png_image_free(&pimage);
+    free(data_dense);
     return result;
 }
 
-- 
2.43.0


From 16e6bd16579348acdb268ed558897addd45db288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 24/57] fix: save_image() rejects 16-bit images in the
 non-native byte order

It silently saved byte-swapped pixels
---
 mrcal-pywrap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index cf47d41..d4a7ee9 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3748,6 +3748,12 @@ PyObject* save_image(PyObject* NPY_UNUSED(self),
         goto done;
     }
 
+    if(!PyArray_ISNOTSWAPPED(image_array))
+    {
+        BARF("I only know how to save numpy arrays in the native byte order");
+        goto done;
+    }
+
     int             ndim    = PyArray_NDIM(image_array);
     const npy_intp* dims    = PyArray_DIMS(image_array);
     int             dtype   = PyArray_TYPE(image_array);
-- 
2.43.0


From 7b65fdae9ebef9aa7936a4bd8d86fed6df0a88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 25/57] fix: ascii .ply files with bgr colors match their
 header

Each point had an extra value not described in the header, so these files couldn't be
read
---
 mrcal/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7b19378..7573da5 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1736,11 +1736,10 @@ property float z
                                 color[:,(2,)],
                                 color[:,(1,)],
                                 color[:,(0,)],
-                                255*np.ones((N,1)),
                                 axis = -1)
                 np.savetxt(f,
                            pbgr,
-                           fmt      = ('%.1f','%.1f','%.1f','%d','%d','%d','%d'),
+                           fmt      = ('%.1f','%.1f','%.1f','%d','%d','%d'),
                            comments = '',
                            header   = '')
             else:
-- 
2.43.0


From 104ad300f15c59e99e297d1f999adaef6258bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 26/57] fix: saving an upside-down view of an array to a .jpg
 does not crash

---
 image.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/image.c b/image.c
index db88965..edc27ef 100644
--- a/image.c
+++ b/image.c
@@ -269,7 +269,8 @@ bool generic_save_jpg(const char* filename,
 
     JSAMPROW row_pointer[1];
     while (cinfo.next_scanline < cinfo.image_height) {
-        row_pointer[0] = &((uint8_t*)image->data)[cinfo.next_scanline * image->stride];
+        // not unsigned: the stride may be negative
+        row_pointer[0] = &((uint8_t*)image->data)[(ptrdiff_t)cinfo.next_scanline * image->stride];
         jpeg_write_scanlines(&cinfo, row_pointer, 1);
     }
 
-- 
2.43.0


From 58052cd8b52eb952aebafc1a32497ecbf26609e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 27/57] fix: write_point_cloud_as_ply() reports write errors

numpy.ndarray.tofile() ignores the errors in its final flush
---
 mrcal/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7573da5..a0c0fc4 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1718,7 +1718,9 @@ property float z
                 binary_ply['rgb'][:,1] = color[:,1]
                 binary_ply['rgb'][:,2] = color[:,0]
 
-            binary_ply.tofile(f)
+            # not binary_ply.tofile(f): that one ignores errors when it writes
+            # the last bit of data
+            f.write(binary_ply.tobytes())
         else:
             if color is not None and color.ndim == 1:
                 # grayscale
-- 
2.43.0


From 183964d70f7ede489988491de1b8de864c821afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 28/57] fix: the triangulation gradients are set to 0 if the
 rays do not intersect

---
 triangulation.cc | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/triangulation.cc b/triangulation.cc
index 679c0f9..2d5d0af 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -6,6 +6,7 @@
 //
 //     http://www.apache.org/licenses/LICENSE-2.0
 
+#include <string.h>
 #include "_autodiff.hh"
 #include "_attribute.h"
 
@@ -101,6 +102,22 @@ triangulate_assume_intersect( // output
 }
 
 
+// What we return if the rays don't intersect: the point at the origin, with all
+// the requested gradients set to 0. Each gradient may be NULL. dm_dt has Nt
+// columns
+static
+mrcal_point3_t
+no_intersection(mrcal_point3_t* dm_dv0,
+                mrcal_point3_t* dm_dv1,
+                mrcal_point3_t* dm_dt,
+                const int Nt)
+{
+    if(dm_dv0 != NULL) memset(dm_dv0->xyz, 0, 3*3 *sizeof(double));
+    if(dm_dv1 != NULL) memset(dm_dv1->xyz, 0, 3*3 *sizeof(double));
+    if(dm_dt  != NULL) memset(dm_dt ->xyz, 0, 3*Nt*sizeof(double));
+    return (mrcal_point3_t){};
+}
+
 #warning "These all have NGRAD=9, which is inefficient: some/all of the requested gradients could be NULL"
 
 // Basic closest-approach-in-3D routine
@@ -169,13 +186,13 @@ mrcal_triangulate_geometric(// outputs
 
     val_withgrad_t<9> denom = dot_v0v0*dot_v1v1 - dot_v0v1*dot_v0v1;
     if(-1e-10 <= denom.x && denom.x <= 1e-10)
-        return (mrcal_point3_t){0};
+        return no_intersection(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     val_withgrad_t<9> denom_recip = val_withgrad_t<9>(1.)/denom;
     val_withgrad_t<9> k0 = denom_recip * (dot_v1v1*dot_v0t - dot_v0v1*dot_v1t);
-    if(k0.x <= 0.0) return (mrcal_point3_t){0};
+    if(k0.x <= 0.0) return no_intersection(_dm_dv0, _dm_dv1, _dm_dt01, 3);
     val_withgrad_t<9> k1 = denom_recip * (dot_v0v1*dot_v0t - dot_v0v0*dot_v1t);
-    if(k1.x <= 0.0) return (mrcal_point3_t){0};
+    if(k1.x <= 0.0) return no_intersection(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     vec_withgrad_t<9,3> m = (v0*k0 + v1*k1 + t01) * 0.5;
 
@@ -410,7 +427,7 @@ mrcal_triangulate_lindstrom(// outputs
     // with that assumption
     vec_withgrad_t<18,3> m;
     if(!triangulate_assume_intersect(m, v0, Rv1, t01))
-        return (mrcal_point3_t){0};
+        return no_intersection(_dm_dv0, _dm_dv1, _dm_dRt01, 12);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -488,7 +505,7 @@ mrcal_triangulate_leecivera_l1(// outputs
 
     vec_withgrad_t<9,3> m;
     if(!triangulate_assume_intersect(m, v0, v1, t01))
-        return (mrcal_point3_t){0};
+        return no_intersection(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -551,7 +568,7 @@ mrcal_triangulate_leecivera_linf(// outputs
     // with that assumption
     vec_withgrad_t<9,3> m;
     if(!triangulate_assume_intersect(m, v0, v1, t01))
-        return (mrcal_point3_t){0};
+        return no_intersection(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -665,7 +682,7 @@ mrcal_triangulate_leecivera_mid2(// outputs
     val_withgrad_t<9> l1 = (cross_norm2<9>(v0, t01) * p_norm2_recip).sqrt();
 
     if(!chirality(l0, v0, l1, v1, t01))
-        return (mrcal_point3_t){0};
+        return no_intersection(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     vec_withgrad_t<9,3> m = (v0*l0 + t01+v1*l1) / 2.0;
 
@@ -740,7 +757,7 @@ mrcal_triangulate_leecivera_wmid2(// outputs
     val_withgrad_t<9> l1 = cross_mag<9>(v0, t01) * p_mag_recip;
 
     if(!chirality(l0, v0, l1, v1, t01))
-        return (mrcal_point3_t){0};
+        return no_intersection(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     vec_withgrad_t<9,3> m = (v0*l0*l1 + t01*l0 + v1*l0*l1) / (l0 + l1);
 
-- 
2.43.0


From f50c25ec319dd6e22ad8d3db8fc138a85f25ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 29/57] fix: polygon_difference() reports errors instead of
 dropping pieces

---
 mrcal/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index a0c0fc4..aa7f963 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -712,13 +712,9 @@ element (difference consists of N separate polygons)
 
         if not (p.interiors and len(p.interiors)):
             # No hole. Return the coords, if they exist
-            try:
-                coords = p.exterior.coords
-                if len(coords) == 0:
-                    return []
-                return [np.array(coords)]
-            except:
+            if p.is_empty:
                 return []
+            return [np.array(p.exterior.coords)]
 
         # There's a hole! We need to split this polygon. I cut the polygon by a
         # line between the centroid and some vertex. Which one doesn't matter; I
-- 
2.43.0


From 53c3924ebc836fc9b7126b4bc9d6b03c38647662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 30/57] fix: mrcal-reproject-image exits with an error if a
 worker process failed

---
 mrcal-reproject-image | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal-reproject-image b/mrcal-reproject-image
index 8daf251..cea8f8e 100755
--- a/mrcal-reproject-image
+++ b/mrcal-reproject-image
@@ -591,6 +591,8 @@ def process(model_from, model_to, image_globs, suffix,
             mapresult.get(1000000)
         except:
             pool.terminate()
+            pool.join()
+            raise
 
         pool.close()
         pool.join()
-- 
2.43.0


From 5e88dd34cda65da110a0a62956b85533d6b6e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 31/57] fix: mrcal-stereo exits with an error if a worker
 process failed

---
 mrcal-stereo | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal-stereo b/mrcal-stereo
index 69ac457..bad7a86 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -1453,6 +1453,8 @@ try:
     mapresult.get(1000000)
 except:
     pool.terminate()
+    pool.join()
+    raise
 
 pool.close()
 pool.join()
-- 
2.43.0


From 4b4640b4d609c0812ecef1c57fc967ddc0cd0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 32/57] fix: mrcal-reproject-image exits with an error if some
 images could not be processed

---
 mrcal-reproject-image | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mrcal-reproject-image b/mrcal-reproject-image
index cea8f8e..9913037 100755
--- a/mrcal-reproject-image
+++ b/mrcal-reproject-image
@@ -523,19 +523,20 @@ def _transform_this(inout):
     except:
         print(f"Couldn't load '{inout[0]}'",
               file=sys.stderr)
-        return
+        return False
 
     if image.shape[0] != model_imagersize[1] or \
        image.shape[1] != model_imagersize[0]:
         print(f"Couldn't process {inout[0]}: image dimensions don't match the input model dimensions. Image size: [{image.shape[1]} {image.shape[0]}]. model.imagersize(): {model_imagersize}",
               file=sys.stderr)
-        return
+        return False
 
     if model_valid_intrinsics_region is not None:
         mrcal.annotate_image__valid_intrinsics_region(image, model_valid_intrinsics_region)
     image_transformed = mrcal.transform_image(image, mapxy)
     mrcal.save_image(inout[1], image_transformed)
     print(f"Wrote {inout[1]}", file=sys.stderr)
+    return True
 
 def process(model_from, model_to, image_globs, suffix,
             intrinsics_only, distance, plane_n, plane_d):
@@ -586,9 +587,8 @@ def process(model_from, model_to, image_globs, suffix,
         try:
             mapresult = pool.map_async(_transform_this, filenames_inout)
 
-            # like wait(), but will barf if something goes wrong. I don't actually care
-            # about the results
-            mapresult.get(1000000)
+            # like wait(), but will barf if something goes wrong
+            results = mapresult.get(1000000)
         except:
             pool.terminate()
             pool.join()
@@ -599,8 +599,11 @@ def process(model_from, model_to, image_globs, suffix,
 
     else:
         # Serial path. Useful for debugging
-        for f in filenames_inout:
-            _transform_this(f)
+        results = [_transform_this(f) for f in filenames_inout]
+
+    if not all(results):
+        # Some images could not be processed. I already complained about each one
+        sys.exit(1)
 
 
 
-- 
2.43.0


From d55e64a78224112ab99c6d6b05e1bc4f707f9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 33/57] fix: mrcal-stereo exits with an error if some images
 could not be processed

---
 mrcal-stereo | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mrcal-stereo b/mrcal-stereo
index bad7a86..47c0a49 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -1425,9 +1425,9 @@ def gui_stereo(images,
 if Nimages == 1 or args.jobs <= 1:
 
     # Serial path. Useful for debugging or if I only have one set of images
-    for i in range(Nimages):
-        process(i)
-    sys.exit(0)
+    results = [process(i) for i in range(Nimages)]
+    # I already complained about each failure
+    sys.exit(0 if all(results) else 1)
 
 ####### Parallel path
 
@@ -1448,9 +1448,8 @@ pool = multiprocessing.Pool(args.jobs)
 try:
     mapresult = pool.map_async(process, np.arange(Nimages))
 
-    # like wait(), but will barf if something goes wrong. I don't actually care
-    # about the results
-    mapresult.get(1000000)
+    # like wait(), but will barf if something goes wrong
+    results = mapresult.get(1000000)
 except:
     pool.terminate()
     pool.join()
@@ -1458,3 +1457,7 @@ except:
 
 pool.close()
 pool.join()
+
+if not all(results):
+    # I already complained about each failure
+    sys.exit(1)
-- 
2.43.0


From a8822014e341c6fc77f7f25ffb90ba118dc2b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 34/57] fix: mrcal-reproject-image does not write multiple
 images to the same file

Images with the same name in different directories, used with --outdir, were all
written to one file: at the same time with --jobs. And an image matched by
several globs was processed several times.
---
 mrcal-reproject-image | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mrcal-reproject-image b/mrcal-reproject-image
index 9913037..6a1049a 100755
--- a/mrcal-reproject-image
+++ b/mrcal-reproject-image
@@ -559,11 +559,16 @@ def process(model_from, model_to, image_globs, suffix,
             sys.exit(1)
         return filename_out
 
-    filenames_in  = [f for g in image_globs for f in glob.glob(g)]
+    # Each file is processed once, even if several globs match it
+    filenames_in  = list(dict.fromkeys(f for g in image_globs for f in glob.glob(g)))
     if len(filenames_in) == 0:
         print(f"Globs '{image_globs}' matched no files!", file=sys.stderr)
         sys.exit(1)
     filenames_out = [target_image_filename(f, suffix) for f in filenames_in]
+    if len(set(filenames_out)) != len(filenames_out):
+        print("Multiple input images have the same target filename: they would overwrite each other. Doing nothing, and giving up",
+              file=sys.stderr)
+        sys.exit(1)
     filenames_inout = zip(filenames_in, filenames_out)
 
     global mapxy
-- 
2.43.0


From 97f1bcb211b848b6aa7ebb050e9c352d7453ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 35/57] fix: mrcal-stereo does not write multiple image pairs
 to the same files

The names of the output files come from the filenames of the images, without the
directory. If several image pairs used the same filename, we would write the
outputs of one, and silently skip the others (or overwrite them with --force).
---
 mrcal-stereo | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mrcal-stereo b/mrcal-stereo
index 47c0a49..22d2a1c 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -850,6 +850,18 @@ if Nimages == 0:
           file=sys.stderr)
     sys.exit(1)
 
+# The output filenames come from the input filenames, so these must be distinct.
+# Otherwise the outputs of the different image pairs would be mixed up
+filename_bases_pairs = \
+    [ set(os.path.splitext(os.path.split(f)[1])[0] for f in \
+          (pair[:1] if args.already_rectified else pair)) \
+      for pair in zip(*image_filenames_all) ]
+if len(set().union(*filename_bases_pairs)) != sum(len(s) for s in filename_bases_pairs) and \
+   not args.viz:
+    print("Multiple image pairs have the same filename: their outputs would overwrite each other",
+          file=sys.stderr)
+    sys.exit(1)
+
 if args.viz == 'stereo' and Nimages > 1:
     print(f"The given globs matched {Nimages} images. But '--viz stereo' was given, so exactly ONE set of images is expected",
           file=sys.stderr)
-- 
2.43.0


From 1a47aaf71a4e4b7b2e2cc3c6fea7a5f8a113a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 36/57] fix: pose functions reject arrays with negative strides
 instead of reading out of bounds

The C functions interpret a stride <= 0 as "contiguous", so passing in x[::-1]
made them read (or write, with out=...) memory outside of the array
---
 poseutils-genpywrap.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/poseutils-genpywrap.py b/poseutils-genpywrap.py
index 71c6abf..c36eb8b 100755
--- a/poseutils-genpywrap.py
+++ b/poseutils-genpywrap.py
@@ -40,8 +40,44 @@ m = npsp.module( name      = "_poseutils_npsp",
                  header    = r'''
 #include "poseutils.h"
 #include <string.h>
+
+// The poseutils C functions interpret a stride <= 0 as a request to use the
+// contiguous stride. So those functions cannot process any array that has such
+// strides for real: a reversed view x[::-1] for instance. I don't let such
+// arrays through to the C functions
+static bool check_strides(const char* name,
+                          int Ndims, const npy_intp* dims, const npy_intp* strides)
+{
+    for(int i=0; i<Ndims; i++)
+        if(dims[i] > 1 && strides[i] <= 0)
+        {
+            PyErr_Format(PyExc_RuntimeError,
+                         "Argument '%s' has a negative or null stride in dimension %d (counting from the end). This is not supported. Please pass in a copy of this array instead",
+                         name, i-Ndims);
+            return false;
+        }
+    return true;
+}
 ''')
 
+# All the functions that don't demand contiguous data can work with any positive
+# strides, so by default I validate that
+_function = m.function
+def _function_checking_strides(*args, **kwargs):
+    if 'Ccode_validate' not in kwargs:
+        prototype_output = kwargs['prototype_output']
+        if len(prototype_output) and isinstance(prototype_output[0], tuple):
+            outputs = [f'output{i}' for i in range(len(prototype_output))]
+        else:
+            outputs = ['output']
+        kwargs['Ccode_validate'] = \
+            'return ' + \
+            ' && '.join(f'check_strides("{n}", Ndims_slice__{n}, dims_slice__{n}, strides_slice__{n})' \
+                        for n in list(kwargs['args_input']) + outputs) + \
+            ';'
+    return _function(*args, **kwargs)
+m.function = _function_checking_strides
+
 m.function( "identity_R",
             """Return an identity rotation matrix
 
-- 
2.43.0


From ed4d14bd14599e7a59a6361099556ee69f06c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 37/57] fix: mrcal-to-kalibr writes the distortion coefficients

"intrinsics" was replaced with its text representation before the distortions
were pulled out of it, so distortion_coeffs was a list of single characters
---
 mrcal-to-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-to-kalibr b/mrcal-to-kalibr
index 4e307de..e1f8977 100755
--- a/mrcal-to-kalibr
+++ b/mrcal-to-kalibr
@@ -143,15 +143,15 @@ def convert_one(i, model_filename):
 
     if   lensmodel_type == 'LENSMODEL_OPENCV4':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'radtan'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     elif lensmodel_type == 'LENSMODEL_PINHOLE':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'none'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     else:
         # cahvor(e)
-- 
2.43.0


From 129d89c68f5276496b90721d837021a7e2b662b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 38/57] fix: the batch format converters do not stop at a model
 that needs no conversion

The remaining models were silently left unconverted, and the tool reported
success
---
 mrcal-from-cahvor | 4 ++--
 mrcal-from-ros    | 4 ++--
 mrcal-to-cahvor   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrcal-from-cahvor b/mrcal-from-cahvor
index ddf3675..11e0c5d 100755
--- a/mrcal-from-cahvor
+++ b/mrcal-from-cahvor
@@ -86,9 +86,9 @@ for model in args.model:
     else:
         base,extension = os.path.splitext(model)
         if extension.lower() == '.cameramodel':
-            print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
+            print(f"Input file '{model}' is already in the cameramodel format (judging from the filename). Doing nothing with this model",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-from-ros b/mrcal-from-ros
index f36b75b..f686866 100755
--- a/mrcal-from-ros
+++ b/mrcal-from-ros
@@ -138,9 +138,9 @@ for model in args.model:
     else:
         base,extension = os.path.splitext(model)
         if extension.lower() == '.cameramodel':
-            print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
+            print(f"Input file '{model}' is already in the cameramodel format (judging from the filename). Doing nothing with this model",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-to-cahvor b/mrcal-to-cahvor
index 46fe5d8..83ec284 100755
--- a/mrcal-to-cahvor
+++ b/mrcal-to-cahvor
@@ -83,9 +83,9 @@ for model in args.model:
     else:
         base,extension = os.path.splitext(model)
         if extension.lower() == '.cahvor':
-            print("Input file is already in the cahvor format (judging from the filename). Doing nothing",
+            print(f"Input file '{model}' is already in the cahvor format (judging from the filename). Doing nothing with this model",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
-- 
2.43.0


From a6b9f2516c8336366a724de2f8bc368df5044e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 39/57] fix: the batch format converters do not write multiple
 models to the same file

With --outdir models with the same filename in different directories have the
same output. With --force we only got the last one; without --force we only got
the first one. Either way, success was reported
---
 mrcal-from-cahvor | 22 +++++++++++++++++++---
 mrcal-from-ros    | 22 +++++++++++++++++++---
 mrcal-to-cahvor   | 22 +++++++++++++++++++---
 3 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/mrcal-from-cahvor b/mrcal-from-cahvor
index 11e0c5d..36e6d7e 100755
--- a/mrcal-from-cahvor
+++ b/mrcal-from-cahvor
@@ -71,6 +71,24 @@ if Nstdin > 1:
     print(f"At most one model can be read from standard input ('-'), but I got {Nstdin}", file=sys.stderr)
     sys.exit(1)
 
+def get_filename_out(base):
+    if args.outdir is not None:
+        base = args.outdir + '/' + os.path.split(base)[1]
+    return base + '.cameramodel'
+
+# Each model must have its own output file
+model_from_filename_out = dict()
+for model in args.model:
+    base,extension = os.path.splitext(model)
+    if model == '-' or extension.lower() == '.cameramodel':
+        continue
+    filename_out = get_filename_out(base)
+    if model_from_filename_out.get(filename_out, model) != model:
+        print(f"Models '{model_from_filename_out[filename_out]}' and '{model}' would both be written to '{filename_out}'. Giving up",
+              file=sys.stderr)
+        sys.exit(1)
+    model_from_filename_out[filename_out] = model
+
 import mrcal
 
 for model in args.model:
@@ -90,9 +108,7 @@ for model in args.model:
                   file=sys.stderr)
             continue
 
-        if args.outdir is not None:
-            base = args.outdir + '/' + os.path.split(base)[1]
-        filename_out = base + '.cameramodel'
+        filename_out = get_filename_out(base)
         if not args.force and os.path.exists(filename_out):
             print(f"Target model '{filename_out}' already exists. Doing nothing with this model. Pass -f to overwrite",
                   file=sys.stderr)
diff --git a/mrcal-from-ros b/mrcal-from-ros
index f686866..115f4dc 100755
--- a/mrcal-from-ros
+++ b/mrcal-from-ros
@@ -123,6 +123,24 @@ if Nstdin > 1:
     print(f"At most one model can be read from standard input ('-'), but I got {Nstdin}", file=sys.stderr)
     sys.exit(1)
 
+def get_filename_out(base):
+    if args.outdir is not None:
+        base = args.outdir + '/' + os.path.split(base)[1]
+    return base + '.cameramodel'
+
+# Each model must have its own output file
+model_from_filename_out = dict()
+for model in args.model:
+    base,extension = os.path.splitext(model)
+    if model == '-' or extension.lower() == '.cameramodel':
+        continue
+    filename_out = get_filename_out(base)
+    if model_from_filename_out.get(filename_out, model) != model:
+        print(f"Models '{model_from_filename_out[filename_out]}' and '{model}' would both be written to '{filename_out}'. Giving up",
+              file=sys.stderr)
+        sys.exit(1)
+    model_from_filename_out[filename_out] = model
+
 import mrcal
 
 for model in args.model:
@@ -142,9 +160,7 @@ for model in args.model:
                   file=sys.stderr)
             continue
 
-        if args.outdir is not None:
-            base = args.outdir + '/' + os.path.split(base)[1]
-        filename_out = base + '.cameramodel'
+        filename_out = get_filename_out(base)
         if not args.force and os.path.exists(filename_out):
             print(f"Target model '{filename_out}' already exists. Doing nothing with this model. Pass -f to overwrite",
                   file=sys.stderr)
diff --git a/mrcal-to-cahvor b/mrcal-to-cahvor
index 83ec284..8b507cc 100755
--- a/mrcal-to-cahvor
+++ b/mrcal-to-cahvor
@@ -71,6 +71,24 @@ if Nstdin > 1:
     print(f"At most one model can be read from standard input ('-'), but I got {Nstdin}", file=sys.stderr)
     sys.exit(1)
 
+def get_filename_out(base):
+    if args.outdir is not None:
+        base = args.outdir + '/' + os.path.split(base)[1]
+    return base + '.cahvor'
+
+# Each model must have its own output file
+model_from_filename_out = dict()
+for model in args.model:
+    base,extension = os.path.splitext(model)
+    if model == '-' or extension.lower() == '.cahvor':
+        continue
+    filename_out = get_filename_out(base)
+    if model_from_filename_out.get(filename_out, model) != model:
+        print(f"Models '{model_from_filename_out[filename_out]}' and '{model}' would both be written to '{filename_out}'. Giving up",
+              file=sys.stderr)
+        sys.exit(1)
+    model_from_filename_out[filename_out] = model
+
 import mrcal
 
 for model in args.model:
@@ -87,9 +105,7 @@ for model in args.model:
                   file=sys.stderr)
             continue
 
-        if args.outdir is not None:
-            base = args.outdir + '/' + os.path.split(base)[1]
-        filename_out = base + '.cahvor'
+        filename_out = get_filename_out(base)
         if not args.force and os.path.exists(filename_out):
             print(f"Target model '{filename_out}' already exists. Doing nothing with this model. Pass -f to overwrite",
                   file=sys.stderr)
-- 
2.43.0


From 8f2925ec15620b70ad761060950e63c548a97b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 40/57] fix: mrcal-from-kalibr exits with an error if T_cn_cnm1
 is invalid

---
 mrcal-from-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-from-kalibr b/mrcal-from-kalibr
index a7acb8f..2fca28c 100755
--- a/mrcal-from-kalibr
+++ b/mrcal-from-kalibr
@@ -263,11 +263,11 @@ def convert_one(d,name):
         if T_cn_cnm1.shape != (4,4):
             print(f"ERROR: T_cn_cnm1 must be a 4x4 array; got T_cn_cnm1.shape={T_cn_cnm1.shape}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
         if np.any(T_cn_cnm1[3,:] - np.array((0,0,0,1))):
             print(f"ERROR: T_cn_cnm1 must have a last row of (0,0,0,1); got {T_cn_cnm1[3,:]}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
 
         # The documentation is here:
         #
-- 
2.43.0


From bcb45a904e4ed653def38cba5777b5f963086ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 41/57] fix: mrcal-convert-lensmodel does not overwrite
 existing files without --force

The tool was looking for a file with a literal {CAMID} in its name
---
 mrcal-convert-lensmodel | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/mrcal-convert-lensmodel b/mrcal-convert-lensmodel
index 2b1c6d8..4552477 100755
--- a/mrcal-convert-lensmodel
+++ b/mrcal-convert-lensmodel
@@ -361,11 +361,6 @@ else:
         directory,filename_base = os.path.split(f)
         file_output = f"{args.outdir}/{filename_base}-{lensmodel_to}{{CAMID}}{extension}"
 
-    if os.path.exists(file_output) and not args.force:
-        print(f"ERROR: '{file_output}' already exists. Not overwriting this file. Pass -f to overwrite",
-              file=sys.stderr)
-        sys.exit(1)
-
 
 lensmodel_from = m.intrinsics()[0]
 
@@ -376,6 +371,21 @@ if lensmodel_from == lensmodel_to:
 
 
 
+def check_outputs_dont_exist(camids):
+    if args.force or not isinstance(file_output, str):
+        return
+    for camid in camids:
+        f = file_output.replace('{CAMID}',camid)
+        if os.path.exists(f):
+            print(f"ERROR: '{f}' already exists. Not overwriting this file. Pass -f to overwrite",
+                  file=sys.stderr)
+            sys.exit(1)
+
+if not args.all:
+    check_outputs_dont_exist( ('',) )
+
+
+
 def scale_down_rational_intrinsics(intrinsics):
     modelmatch = re.search("OPENCV([0-9]+)", lensmodel_to)
     if modelmatch:
@@ -506,8 +516,12 @@ if not args.sampled:
     intrinsics_from      = optimization_inputs['intrinsics']
     intrinsics_from_core = intrinsics_from[..., :4]
     Ncameras             = len(intrinsics_from)
-    if Ncameras == 1:
-        args.all = False
+    if args.all:
+        if Ncameras == 1:
+            args.all = False
+            check_outputs_dont_exist( ('',) )
+        else:
+            check_outputs_dont_exist( ['-{:02d}'.format(i) for i in range(Ncameras)] )
 
     # Ignore observations in the corners, as requested
     if not (args.radius is None or args.radius == 0):
-- 
2.43.0


From 1ca1972130df9645e11d41d3442bfbae13eb6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 42/57] fix: mrcal-rotate-corners exits with an error if any
 part of its pipeline failed

Only the first stage was looked at: we could report success with incomplete
output
---
 mrcal-rotate-corners | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mrcal-rotate-corners b/mrcal-rotate-corners
index 8078692..430d629 100755
--- a/mrcal-rotate-corners
+++ b/mrcal-rotate-corners
@@ -175,4 +175,8 @@ vnl-filter \
 | vnl-sort -k filename -k icorner.n \
 | vnl-filter -p '!icorner'
 
-exit ${PIPESTATUS[0]}
+# If any part of the pipeline failed, the output is not complete
+for status in ${PIPESTATUS[@]}; do
+    if (( $status )); then exit $status; fi
+done
+exit 0
-- 
2.43.0


From 56f973e586bb3417465ad855361d1f92c0ef7e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 43/57] fix: mrcal-is-within-valid-intrinsics-region exits with
 an error if it could not produce its output

The status of the pipeline and of the child process was ignored: we reported
success with incomplete output
---
 mrcal-is-within-valid-intrinsics-region | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mrcal-is-within-valid-intrinsics-region b/mrcal-is-within-valid-intrinsics-region
index 1325cb4..4e3b2df 100755
--- a/mrcal-is-within-valid-intrinsics-region
+++ b/mrcal-is-within-valid-intrinsics-region
@@ -130,11 +130,19 @@ os.close(fd_write)
 
 
 # I don't re-sort the input. NR was printed with %06d so it's already sorted.
-cmd = f"vnl-filter --skipcomments -p __linenumber='sprintf(\"%06d\",NR)',. | vnl-join -j __linenumber - /dev/fd/{fd_read} | vnl-filter -p \\!__linenumber"
-subprocess.run( cmd,
-                shell = True,
-                close_fds = False,
-                encoding = 'ascii',
-                input = in_file )
+cmd = f"set -o pipefail; vnl-filter --skipcomments -p __linenumber='sprintf(\"%06d\",NR)',. | vnl-join -j __linenumber - /dev/fd/{fd_read} | vnl-filter -p \\!__linenumber"
+result = \
+    subprocess.run( cmd,
+                    shell = True,
+                    executable = '/bin/bash', # for pipefail
+                    close_fds = False,
+                    encoding = 'ascii',
+                    input = in_file )
 
 os.close(fd_read)
+
+_,status_child = os.waitpid(pid, 0)
+if result.returncode != 0 or status_child != 0:
+    print("Couldn't process the input; the output is not complete",
+          file = sys.stderr)
+    sys.exit(1)
-- 
2.43.0


From 6751c85e2d08c8f79a798b937b3fb5948cb317c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 44/57] fix: mrcal-cull-corners exits with an error if its
 input has no legend

---
 mrcal-cull-corners | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 02c501b..1ab1739 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -212,6 +212,9 @@ if args.cull_left_of              is not None or \
 
         print("This tool REQUIRES a .vnl file with legend matching EXACTLY '# filename x y level'. Giving up", file=sys.stderr)
         sys.exit(1)
+    else:
+        print("This tool REQUIRES a .vnl file with legend matching EXACTLY '# filename x y level'. Got no legend at all. Giving up", file=sys.stderr)
+        sys.exit(1)
 
     xy_pt            = np.array((0,0), dtype=int)
     filename_current = ''
-- 
2.43.0


From 04b761d3a5af182920fe1cd96bd92aa7043ffc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 45/57] fix: pose functions accept empty arrays regardless of
 their strides

numpy makes empty arrays with null strides. These were rejected since 1a47aaf
---
 poseutils-genpywrap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/poseutils-genpywrap.py b/poseutils-genpywrap.py
index c36eb8b..168fa53 100755
--- a/poseutils-genpywrap.py
+++ b/poseutils-genpywrap.py
@@ -46,8 +46,14 @@ m = npsp.module( name      = "_poseutils_npsp",
 // strides for real: a reversed view x[::-1] for instance. I don't let such
 // arrays through to the C functions
 static bool check_strides(const char* name,
+                          int Ndims_full, const npy_intp* dims_full,
                           int Ndims, const npy_intp* dims, const npy_intp* strides)
 {
+    // Empty arrays have no data, so their strides don't matter. numpy does make
+    // empty arrays with null strides
+    for(int i=0; i<Ndims_full; i++)
+        if(dims_full[i] == 0)
+            return true;
     for(int i=0; i<Ndims; i++)
         if(dims[i] > 1 && strides[i] <= 0)
         {
@@ -72,7 +78,7 @@ def _function_checking_strides(*args, **kwargs):
             outputs = ['output']
         kwargs['Ccode_validate'] = \
             'return ' + \
-            ' && '.join(f'check_strides("{n}", Ndims_slice__{n}, dims_slice__{n}, strides_slice__{n})' \
+            ' && '.join(f'check_strides("{n}", Ndims_full__{n}, dims_full__{n}, Ndims_slice__{n}, dims_slice__{n}, strides_slice__{n})' \
                         for n in list(kwargs['args_input']) + outputs) + \
             ';'
     return _function(*args, **kwargs)
-- 
2.43.0


From 096fc7d1030400a3aff35c011d2b46ceec5cf458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 46/57] fix: mrcal-cull-corners
 --cull-random-observations-ratio keeps the corners at level 0

The "level" column was interpreted as a weight, so the corners at level 0 had a
weight of 0: all of those were thrown out, and the boards with many of those were
thrown out completely
---
 mrcal-cull-corners | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 1ab1739..924ad61 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -270,7 +270,7 @@ observations, _, paths = \
     mrcal.compute_chessboard_corners(W                  = args.object_width_n,
                                      H                  = args.object_height_n,
                                      corners_cache_vnl  = sys.stdin,
-                                     weight_column_kind = 'weight')
+                                     weight_column_kind = 'level')
 
 N_keep       = int(round((1.0 - args.cull_random_observations_ratio) * len(observations)))
 indices_keep = np.sort(np.random.choice(len(observations), N_keep, replace=False))
@@ -289,7 +289,9 @@ print('# filename x y level')
 for i in range(len(paths)):
     path   = paths[i]
     for j in range(observations.shape[-2]):
-        l = observations[i][j][2]
-        if l < 0: l = '-'
-        else:     l = int(l)
+        # I convert the weight back to the decimation level it came from:
+        # weight = 2^(-level)
+        w = observations[i][j][2]
+        if w <= 0: l = '-'
+        else:      l = int(round(-np.log2(w)))
         print(f"{path} {observations[i][j][0]} {observations[i][j][1]} {l}")
-- 
2.43.0


From d9e216b1f763c3b67c6850d23de62d861bbd7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 47/57] fix: traverse_sensor_links() stops if the callback
 returns False, and returns a true value on success

As documented
---
 mrcal-pywrap.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index d4a7ee9..e1d68cf 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4238,8 +4238,14 @@ callback_sensor_link_C(const uint16_t idx_to, const uint16_t idx_from, void* coo
     if(result == NULL)
         return false;
 
+    // The callback asked us to stop. None (a callback that returns nothing) is
+    // NOT an error
+    const bool stop =
+        result == Py_False ||
+        (PyArray_IsScalar(result, Bool) && !PyObject_IsTrue(result));
+
     Py_DECREF(result);
-    return true;
+    return !stop;
 }
 static
 PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
@@ -4311,8 +4317,8 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
         }
     }
 
-    Py_INCREF(Py_None);
-    result = Py_None;
+    Py_INCREF(Py_True);
+    result = Py_True;
 
  done:
 
-- 
2.43.0


From 4a9b28388f0f9e2d035e088619918364385ab01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 48/57] fix: traverse_sensor_links() works with no sensors and
 with very many sensors

The connectivity matrix was copied to the stack, which overflowed with a few
thousand sensors. And with no sensors at all we would write to a root node that
does not exist
---
 mrcal-pywrap.c          | 18 +++++++++++++++---
 traverse-sensor-links.c | 10 +++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index e1d68cf..c961f31 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4258,6 +4258,8 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
     PyArrayObject* connectivity_matrix  = NULL;
     PyObject*      callback_sensor_link = NULL;
 
+    uint16_t* connectivity_matrix_upper = NULL;
+
     char* keywords[] = { "connectivity_matrix",
                          "callback_sensor_link",
                          NULL};
@@ -4298,9 +4300,18 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
 
 
     {
-        // We reconstruct just the upper triangle of the connectivity_matrix
-        uint16_t connectivity_matrix_upper[Nsensors*(Nsensors-1)/2];
-        int k = 0;
+        // We reconstruct just the upper triangle of the connectivity_matrix.
+        // This could be too big for the stack. Allocating at least one element
+        // to not malloc(0)
+        const size_t N = (size_t)Nsensors;
+        connectivity_matrix_upper =
+            malloc( (N <= 1 ? 1 : N*(N-1)/2) * sizeof(connectivity_matrix_upper[0]) );
+        if(connectivity_matrix_upper == NULL)
+        {
+            PyErr_NoMemory();
+            goto done;
+        }
+        size_t k = 0;
         for(int i=0; i<Nsensors; i++)
             for(int j=i+1; j<Nsensors; j++)
                 connectivity_matrix_upper[k++] =
@@ -4322,6 +4333,7 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
 
  done:
 
+    free(connectivity_matrix_upper);
     Py_XDECREF(connectivity_matrix);
     return result;
 }
diff --git a/traverse-sensor-links.c b/traverse-sensor-links.c
index 90eac1e..dff3b0f 100644
--- a/traverse-sensor-links.c
+++ b/traverse-sensor-links.c
@@ -22,9 +22,9 @@
 //           printf("\n");
 //       }
 //   }
-static int pairwise_index(const int a,
-                          const int b,
-                          const int N)
+static size_t pairwise_index(const size_t a,
+                             const size_t b,
+                             const size_t N)
 {
     // I have an (N,N) symmetric matrix with a 0 diagonal. I store the upper
     // triangle only, row-first: a 1D array of (N*(N-1)/2) values. This function
@@ -126,6 +126,10 @@ bool mrcal_traverse_sensor_links( const uint16_t Nsensors,
       i_parent as the previous sensor
 
     */
+    if(Nsensors == 0)
+        // no sensors: nothing to visit
+        return true;
+
     mrcal_heap_node_t nodes[Nsensors];
     memset(nodes,0,sizeof(nodes[0])*Nsensors);
 
-- 
2.43.0


From 649c9447b3f7b669ad32af6912e451775e833346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 49/57] fix: compute_chessboard_corners() does not put images
 into / if the cache is in the current directory

With a corners_cache_vnl that has no directory, and images that are not on disk,
the image paths we returned were all in the root directory
---
 mrcal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index ce402fa..9f134f9 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -330,7 +330,8 @@ which mrcal.optimize() expects
                     elif corners_dir is not None      and \
                          context['f'][0] != '/'       and \
                          not os.path.exists(context['f']):
-                        filename_canonical = f"{corners_dir}/{context['f']}"
+                        # corners_dir is '' if the cache is in the current directory
+                        filename_canonical = os.path.join(corners_dir, context['f'])
                     else:
                         filename_canonical = os.path.normpath(context['f'])
 
-- 
2.43.0


From 140cfe6a8fac8c1c12817c614ab7e12e6e208568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 50/57] fix: mrcal.cahvor.write() does not truncate an existing
 file if the model cannot be written

---
 mrcal/cahvor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index 13d8988..ba3ba1f 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -33,6 +33,7 @@ reason to use this module.
 
 import sys
 import re
+import io
 
 import numpy     as np
 import numpysane as nps
@@ -416,8 +417,14 @@ def write(f, m, note=None):
     r'''Writes a cameramodel as a .cahvor to a filename or a writeable file object'''
 
     if type(f) is str:
+        # Generate the whole output before I open the file: if this model can't
+        # be represented, I will get an exception here, and I shouldn't touch a
+        # file that already exists
+        s = io.StringIO()
+        _write(s, m, note)
         with open(f, 'w') as openedfile:
-            return _write(openedfile, m, note)
+            openedfile.write(s.getvalue())
+        return True
 
     return _write(f, m, note)
 
-- 
2.43.0


From e8441273c39328516e17a2066d7321de947a1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 51/57] fix: ingest_packed_state() updates non-contiguous
 arrays, partial intrinsics and problems without fixed points

---
 mrcal/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index aa7f963..0ba9ea4 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1177,33 +1177,34 @@ None
         lensmodel    = optimization_inputs['lensmodel']
         has_core     = mrcal.lensmodel_metadata_and_config(lensmodel)['has_core']
         Ncore        = 4 if has_core else 0
-        Ndistortions = mrcal.lensmodel_num_params(lensmodel) - Ncore
 
         do_optimize_intrinsics_core        = optimization_inputs.get('do_optimize_intrinsics_core',        True)
         do_optimize_intrinsics_distortions = optimization_inputs.get('do_optimize_intrinsics_distortions', True)
         if not do_optimize_intrinsics_core:
             iunpacked0 = Ncore
         if not do_optimize_intrinsics_distortions:
-            iunpacked1 = -Ndistortions
+            iunpacked1 = Ncore
 
-        intrinsics[:, iunpacked0:iunpacked1].ravel()[:] = \
-            b[ ivar0:Nvars_intrinsics ]
+        # Not "array.ravel()[:] = ...": ravel() makes a copy if the data isn't
+        # contiguous
+        intrinsics[:, iunpacked0:iunpacked1] = \
+            b[ ivar0:ivar0+Nvars_intrinsics ].reshape(intrinsics[:, iunpacked0:iunpacked1].shape)
 
     ivar0 = mrcal.state_index_extrinsics(0, **optimization_inputs)
     if ivar0 is not None:
-        extrinsics.ravel()[:] = b[ivar0:ivar0+Nvars_extrinsics]
+        extrinsics[...] = b[ivar0:ivar0+Nvars_extrinsics].reshape(extrinsics.shape)
 
     ivar0 = mrcal.state_index_frames(0, **optimization_inputs)
     if ivar0 is not None:
-        frames.ravel()[:] = b[ivar0:ivar0+Nvars_frames]
+        frames[...] = b[ivar0:ivar0+Nvars_frames].reshape(frames.shape)
 
     ivar0 = mrcal.state_index_points(0, **optimization_inputs)
     if ivar0 is not None:
-        points.ravel()[:-Npoints_fixed*3] = b[ivar0:ivar0+Nvars_points]
+        points[:len(points)-Npoints_fixed] = b[ivar0:ivar0+Nvars_points].reshape(-1,3)
 
     ivar0 = mrcal.state_index_calobject_warp(**optimization_inputs)
     if ivar0 is not None:
-        calobject_warp.ravel()[:] = b[ivar0:ivar0+Nvars_calobject_warp]
+        calobject_warp[...] = b[ivar0:ivar0+Nvars_calobject_warp]
 
 
 def sorted_eig(M):
-- 
2.43.0


From 854c4eb8be291cd22a859c91b54274bd94584ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 52/57] fix: mrcal_corresponding_icam_extrinsics() reports
 out-of-bounds camera indices

---
 mrcal.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index c0e617e..b258074 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3896,6 +3896,8 @@ static
 bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, int i,
                                             int* icam_map_to_extrinsics,
                                             int* icam_map_to_intrinsics,
+                                            int Ncameras_intrinsics,
+                                            int Ncameras_extrinsics,
                                             const char* what)
 {
     int icam_intrinsics = icam->intrinsics;
@@ -3903,6 +3905,16 @@ bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, in
 
     if(icam_extrinsics < 0) icam_extrinsics = -1;
 
+    if(icam_intrinsics < 0 || icam_intrinsics >= Ncameras_intrinsics ||
+       icam_extrinsics >= Ncameras_extrinsics)
+    {
+        MSG("Cannot compute icam_extrinsics. %s observation %d has out-of-bounds icam_intrinsics,icam_extrinsics %d,%d: have Ncameras_intrinsics,Ncameras_extrinsics = %d,%d",
+            what, i,
+            icam_intrinsics, icam_extrinsics,
+            Ncameras_intrinsics, Ncameras_extrinsics);
+        return false;
+    }
+
     if(icam_map_to_intrinsics[icam_extrinsics+1] == -100)
         icam_map_to_intrinsics[icam_extrinsics+1] = icam_intrinsics;
     else if(icam_map_to_intrinsics[icam_extrinsics+1] != icam_intrinsics)
@@ -3954,12 +3966,16 @@ bool mrcal_corresponding_icam_extrinsics(// out
         if(!_corresponding_icam_extrinsics__check( &observations_board[i].icam, i,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
+                                                   Ncameras_intrinsics,
+                                                   Ncameras_extrinsics,
                                                    "board"))
             return false;
     for(int i=0; i<Nobservations_point; i++)
         if(!_corresponding_icam_extrinsics__check( &observations_point[i].icam, i,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
+                                                   Ncameras_intrinsics,
+                                                   Ncameras_extrinsics,
                                                    "point"))
             return false;
 
-- 
2.43.0


From 695b0f974307bc85fc741556f2a57645c580ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 53/57] fix: mrcal.cameramodel(): can read the opencv/ros
 models in the json format

These parse as a python literal, so the reader of the native format got them
first. Its check for the required keys passed almost always, and the KeyError
that followed made the reader give up, instead of trying the next format
---
 mrcal/cameramodel.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 5a19000..289b4a3 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -619,8 +619,6 @@ A sample valid .cameramodel file:
         renamed('icam_intrinsics_optimization_inputs',
                 'icam_intrinsics',
                 model)
-        model['lensmodel'] = model['lensmodel'].replace('DISTORTION', 'LENSMODEL')
-
         renamed('extrinsics', 'rt_cam_ref',
                 model,
                 check_equal = True)
@@ -632,9 +630,13 @@ A sample valid .cameramodel file:
                              'rt_cam_ref',
                              'imagersize'))
         keys_received = set(model.keys())
-        if keys_received < keys_required:
-            raise Exception("Model must have at least these keys: '{}'. Instead I got '{}'". \
-                            format(keys_required, keys_received))
+        if not keys_received >= keys_required:
+            # This could be an opencv/ros model in the json format, which parses
+            # just fine as a python literal
+            raise CameramodelParseException("Model must have at least these keys: '{}'. Instead I got '{}'". \
+                                            format(keys_required, keys_received))
+
+        model['lensmodel'] = model['lensmodel'].replace('DISTORTION', 'LENSMODEL')
 
         valid_intrinsics_region = None
         if 'valid_intrinsics_region' in model:
-- 
2.43.0


From ebe3d55edd2bdab876f206b54dca2155cd92d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 54/57] fix: mrcal_unproject() sets all of the result to nan if
 it fails

The z coordinate was left uninitialized
---
 mrcal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal.c b/mrcal.c
index b258074..3a73d55 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3260,6 +3260,7 @@ bool _mrcal_unproject_internal( // out
             double nan = strtod("NAN", NULL);
             out->xyz[0] = nan;
             out->xyz[1] = nan;
+            out->xyz[2] = nan;
         }
         else
         {
-- 
2.43.0


From f80d4088ea2d791074dbeb657b50c8e707c5db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 55/57] fix: mrcal.unproject(get_gradients=True, out=...) works
 with the given arrays

With most lens models "out[1] *= 0." raised a TypeError if out is a tuple, as
documented. And any nan or inf in the given arrays ended up in the result
---
 mrcal/projections.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mrcal/projections.py b/mrcal/projections.py
index f777533..10811dc 100644
--- a/mrcal/projections.py
+++ b/mrcal/projections.py
@@ -304,7 +304,7 @@ if get_gradients: we return a tuple:
                     not any(np.array(out[2].shape[:-len(dv_di_shape)]) - 1)):
                 raise Exception(f"Shape of out[2] doesn't match broadcasted shape for dv_di. Wanted {dv_di_shape}, but got {out[2].shape}")
             dv_di = out[2]
-            dv_di *= 0
+            dv_di[...] = 0
 
         # dv/df
         dv_di[..., :2] += nps.dummy((cxy - q)/fxy, -2) * dv_dq
@@ -378,8 +378,7 @@ if get_gradients: we return a tuple:
         dv_dq = nps.transpose(np.linalg.solve( nps.transpose(dq_du),
                                                nps.transpose(dv_du) ))
         if out is not None:
-            out[1] *= 0.
-            out[1] += dv_dq
+            out[1][...] = dv_dq
             dv_dq = out[1]
 
 
-- 
2.43.0


From f071222b4118e40196a8d3b6be5a2d1538374067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 56/57] fix: projections that fail set all of the gradients to
 0

The gradients have two rows: of x and of y. Only the first one was set
---
 mrcal.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 3a73d55..99969d3 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2505,10 +2505,10 @@ void _project_point( // outputs
             memset(q, 0, sizeof(*q));
             if(p_dq_dfxy)               memset(p_dq_dfxy,               0, sizeof(*p_dq_dfxy));
             if(p_dq_dintrinsics_nocore) memset(p_dq_dintrinsics_nocore, 0, sizeof(*p_dq_dintrinsics_nocore) * 2 * (Nintrinsics-4));
-            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(*dq_drcamera));
-            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(*dq_dtcamera));
-            if(dq_drframe)              memset(dq_drframe,              0, sizeof(*dq_drframe));
-            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(*dq_dtframe));
+            if(dq_drcamera)             memset(dq_drcamera,             0, 2*sizeof(*dq_drcamera));
+            if(dq_dtcamera)             memset(dq_dtcamera,             0, 2*sizeof(*dq_dtcamera));
+            if(dq_drframe)              memset(dq_drframe,              0, 2*sizeof(*dq_drframe));
+            if(dq_dtframe)              memset(dq_dtframe,              0, 2*sizeof(*dq_dtframe));
 
         }
     }
-- 
2.43.0


From 777acab02b45a9bacbd9ef97a40030e6fa7eb6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 57/57] fix: more than one observation of a triangulated point
 at the reference is an error

The solver assumes that at most one camera sits at the reference, and crashed
if given more
---
 mrcal-pywrap.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index c961f31..d6b4a74 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1303,6 +1303,20 @@ static bool _finish_triangulated_set(// out
              ipoint_last_in_set);
         return false;
     }
+
+    // The solver assumes that at most one camera sits at the reference
+    bool seen_ref = false;
+    for(int i=ipoint_last_in_set-Npoints_in_this_set+1; i<=ipoint_last_in_set; i++)
+        if(c_observations_point_triangulated[i].icam.extrinsics < 0)
+        {
+            if(seen_ref)
+            {
+                BARF("Error in indices_point_triangulated_camintrinsics_camextrinsics[%d]. Each point may be observed by a camera at the reference (icam_extrinsics < 0) at most once",
+                     i);
+                return false;
+            }
+            seen_ref = true;
+        }
     return true;
 }
 
-- 
2.43.0

