From 6ada6382135b2e387c9b9910772f6d1281e494be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 01/17] fix: LinearTransform jacobian overwrites its output
 instead of accumulating into it

jacobian() and inverseJacobian() take J/invJ as [out] arguments but added to
whatever the argument held, so reusing an output gave a wrong Jacobian.
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 63e78e3..25b33e5 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -168,6 +168,13 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+
+  // J is an output: what it held before the call must not leak into the result
+  forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
+  {
+    J( decltype(ici)::value, decltype(icj)::value ) = REAL_TYPE( 0 );
+  } );
+
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
@@ -215,6 +222,12 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   auto const & nodeCoords = transform.getData();
   constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
 
+  // J is an output: what it held before the call must not leak into the result
+  forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
+  {
+    J( decltype(ici)::value, decltype(icj)::value ) = REAL_TYPE( 0 );
+  } );
+
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     constexpr CArrayNd< REAL_TYPE, DIMS > dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( qcoords );
-- 
2.43.0


From 3ce7eecfd75a16f2fafda340696f697266f38e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 02/17] fix: assertion reports of threads failing together no
 longer interleave

---
 include/shiva/common/ShivaErrorHandling.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/ShivaErrorHandling.hpp b/include/shiva/common/ShivaErrorHandling.hpp
index b3d885d..363d2b9 100644
--- a/include/shiva/common/ShivaErrorHandling.hpp
+++ b/include/shiva/common/ShivaErrorHandling.hpp
@@ -41,6 +41,13 @@ void shivaAssertionFailed( const char * file, int line, bool const callAbort, co
   __builtin_trap();
 #endif
 #else // Host
+  // The report is written in several pieces: hold the stream so that reports of
+  // threads that fail at the same time do not get mixed up.
+#if defined(_WIN32)
+  _lock_file( stderr );
+#else
+  flockfile( stderr );
+#endif
   fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );
   va_list args;
   va_start( args, fmt );
@@ -49,10 +56,16 @@ void shivaAssertionFailed( const char * file, int line, bool const callAbort, co
   fprintf( stderr, "\n" );
   if( callAbort )
   {
-    // LCOV_EXCL_START
-    fprintf( stderr, "Aborting...\n" );
-    std::abort();
-    // LCOV_EXCL_STOP
+    fprintf( stderr, "Aborting...\n" );  // LCOV_EXCL_LINE
+  }
+#if defined(_WIN32)
+  _unlock_file( stderr );
+#else
+  funlockfile( stderr );
+#endif
+  if( callAbort )
+  {
+    std::abort();  // LCOV_EXCL_LINE
   }
 #endif
 }
-- 
2.43.0


From afc767b0f9d4737ae138c2f06004bea6edf6ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 03/17] fix: linearIndex of a multi-index range uses the ranges
 that follow each index

---
 include/shiva/common/IndexTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 83cb158..4ea8b3f 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -59,11 +59,11 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   using IndexType = MultiIndexRange< BASE_INDEX_TYPE, RANGES... >;
 
   // call strideHelper on an integer_sequence that ranges from 0...(NUM_INDICES
-  // - 1 - INDEX).
+  // - 1 - INDEX), offset to the ranges that follow INDEX.
   // This will result in a fold expression that multiples entries of the ranges
   // array for the integer_sequence.
   return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               &(index.ranges[0]) );
+                               index.ranges + ( INDEX + 1 ) );
 }
 
 /**
-- 
2.43.0


From 63c87f459d4fba4729ef20afe688e4d35293d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 04/17] fix: pmpl launch wrappers check every device call and
 build with HIP

---
 include/shiva/common/pmpl.hpp | 49 ++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index a6f133e..74b9e55 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -36,6 +36,8 @@ namespace shiva
 #define deviceFree( PTR ) cudaFree( PTR );
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
+#define deviceGetLastError      cudaGetLastError
+#define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
 constexpr cudaError_t deviceSuccess = cudaSuccess;
 #elif defined(SHIVA_ENABLE_HIP)
@@ -46,6 +48,8 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceFree( PTR ) hipFree( PTR );
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
+#define deviceGetLastError      hipGetLastError
+#define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
 constexpr hipError_t deviceSuccess = hipSuccess;
 #endif
@@ -100,10 +104,16 @@ template< typename LAMBDA >
 void genericKernelWrapper( LAMBDA && func, bool const abortOnError = true )
 {
 #if defined(SHIVA_ENABLE_DEVICE)
+  // discard errors of earlier calls, so that the launch is judged by its own
+  static_cast< void >( deviceGetLastError() );
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ) );
   // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
+  deviceError_t err = deviceGetLastError();
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
   if ( err != deviceSuccess )
   {
     printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
@@ -157,15 +167,34 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 {
 
 #if defined(SHIVA_ENABLE_DEVICE)
-  DATA_TYPE * deviceData;
-  deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), cudaMemcpyHostToDevice );
-  // UNCRUSTIFY-OFF
-  genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
-  // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
-  deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
-  deviceFree( deviceData );
+  DATA_TYPE * deviceData = nullptr;
+  deviceError_t err = deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
+  bool const allocated = ( err == deviceSuccess );
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
+  }
+  if ( err == deviceSuccess )
+  {
+    // discard errors of earlier calls, so that the launch is judged by its own
+    static_cast< void >( deviceGetLastError() );
+    // UNCRUSTIFY-OFF
+    genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
+    // UNCRUSTIFY-ON
+    err = deviceGetLastError();
+  }
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  }
+  if ( allocated )
+  {
+    deviceFree( deviceData );
+  }
   if ( err != deviceSuccess )
   {
     printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
-- 
2.43.0


From f91c2093e135e11e6c572f4068a9c8c3fffee934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 05/17] fix: aggregation fails on missing, unreadable and
 cyclic headers and keeps all includes

---
 scripts/aggregateOrSplit.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 251174e..60c6a2b 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -9,6 +9,7 @@ class HeaderFileManager:
         self.included = set()  # Tracks already processed files
         self.included_list = []
         self.config_file = "ShivaConfig.hpp"
+        self.include_pattern = re.compile(r'\s*#\s*include\s*"([^"]+)"')
 
     def create_dependency_graph(self, header, include_paths=None):
         """
@@ -31,7 +32,7 @@ class HeaderFileManager:
         try:
             with open(header, 'r') as file:
                 for line in file:
-                    include_match = re.match(r'#include\s+"([^"]+)"', line)
+                    include_match = self.include_pattern.match(line)
                     if include_match:
                         included_file = include_match.group(1)
 
@@ -47,11 +48,12 @@ class HeaderFileManager:
                                     self.create_dependency_graph(resolved_path, include_paths)
                                 else:
                                     raise FileNotFoundError(f"Dependency not found: {resolved_path}")
-                            else:
+                            elif os.path.basename(included_file) != self.config_file:
                                 raise FileNotFoundError(
                                     f"Unable to resolve dependency: {included_file}")
         except Exception as e:
             print(f"Error processing {header}: {e}")
+            raise
 
         # Update dependents
         for dependency in self.dependencies[header]:
@@ -101,6 +103,9 @@ class HeaderFileManager:
                         unique_files.add(abs_key)
                     local_included.append(key)
 
+            if not local_included:
+                raise RuntimeError(f"Cyclic includes among: {sorted(remaining_dependencies)}")
+
             for included_key in local_included:
                 del remaining_dependencies[included_key]
 
@@ -125,8 +130,9 @@ class HeaderFileManager:
 
             with open(header_path, 'r') as file:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
+                line = "\n"
                 for line in file:
-                    include_match = re.match(r'#include\s+"([^"]+)"', line)
+                    include_match = self.include_pattern.match(line)
                     pragma_once_match = re.match(r'#pragma\s+once', line, re.IGNORECASE)
                     if include_match:
                         # Comment out include statements
@@ -137,6 +143,8 @@ class HeaderFileManager:
                     else:
                         # Write all other lines as is
                         output.write(line)
+                if not line.endswith("\n"):
+                    output.write("\n")
                 output.write(f"// ===== End of {header_path} =====\n")
 
         with open(output_file, 'w') as output:
-- 
2.43.0


From c680e61a7cfafd0598d2ba929961b3ed0778b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 06/17] fix: splitting stays in its output directory and
 recreates sub-directories

---
 scripts/aggregateOrSplit.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 60c6a2b..9bf7959 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -1,5 +1,6 @@
 import os
 import re
+import stat
 import argparse
 
 class HeaderFileManager:
@@ -162,6 +163,21 @@ class HeaderFileManager:
             for header in self.included_list:
                 process_header(header, output)
 
+    def split_path(self, output_dir, header):
+        """
+        Location of a header below the output directory, which neither ".." nor a link may leave.
+        """
+        path = output_dir
+        for part in os.path.normpath(header).lstrip(os.sep).split(os.sep):
+            path = os.path.join(path, part)
+            try:
+                is_link = stat.S_ISLNK(os.lstat(path).st_mode)
+            except FileNotFoundError:
+                is_link = False
+            if is_link or part == os.pardir:
+                raise ValueError(f"Refusing to write outside of {output_dir}: {header}")
+        return path
+
     def split_aggregated_file(self, aggregated_file, output_dir):
         """
         Splits an aggregated file back into individual header files.
@@ -179,7 +195,9 @@ class HeaderFileManager:
                     if output:
                         output.close()
                     current_file = start_match.group(1)
-                    output = open(os.path.join(output_dir, current_file), 'w')
+                    output_path = self.split_path(output_dir, current_file)
+                    os.makedirs(os.path.dirname(output_path), exist_ok=True)
+                    output = open(output_path, 'w')
                 elif end_match:
                     if output:
                         output.close()
-- 
2.43.0


From 3c567793002395a4974e3726eb55226ca8a02018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:49 +0000
Subject: [PATCH 07/17] fix: configuring fails when cmake or dot fails

---
 scripts/config-build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index a345ac7..46e34e1 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -181,9 +181,9 @@ os.chdir(buildpath)
 print("Executing cmake line: '%s'\n" % cmakeline)
 
 try:
-    subprocess.call(cmakeline,shell=True)
+    subprocess.check_call(cmakeline,shell=True)
     if args.graphviz:
-        subprocess.call(dot_line, shell=True)
+        subprocess.check_call(dot_line, shell=True)
 except:
     print("CMake failed.  See above output for details.")
     sys.exit(1)
-- 
2.43.0


From 1d31b486111dd4926bc657e76007a00cb55f4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 08/17] fix: configuring hands paths and extra arguments to
 cmake unchanged

---
 scripts/config-build.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index 46e34e1..bb8f7f9 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -8,6 +8,7 @@ import os
 import subprocess
 import argparse
 import platform
+import shlex
 import shutil
 
 def extract_cmake_location(file_path):
@@ -137,11 +138,11 @@ cmakeline = "cmake"
 assert cmakeline, "Host config file doesn't contain valid cmake location, value was %s" % cmakeline
 
 # Add cache file option
-cmakeline += " -C %s" % cachefile
+cmakeline += " -C %s" % shlex.quote(cachefile)
 # Add build type (opt or debug)
 cmakeline += " -DCMAKE_BUILD_TYPE=" + args.buildtype
 # Set install dir
-cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % installpath
+cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % shlex.quote(installpath)
 
 if args.exportcompilercommands:
     cmakeline += " -DCMAKE_EXPORT_COMPILE_COMMANDS=on"
@@ -161,9 +162,9 @@ if args.graphviz:
 
 
 if unknown_args:
-    cmakeline += " " + " ".join( unknown_args )
+    cmakeline += " " + " ".join( shlex.quote( arg ) for arg in unknown_args )
 
-cmakeline += " %s/.. " % scriptsdir
+cmakeline += " %s/.. " % shlex.quote(scriptsdir)
 
 # Dump the cmake command to file for convenience
 cmdfile = open("%s/cmake_cmd" % buildpath, "w")
-- 
2.43.0


From 8063a8d575daa1c5513a354e17e65b6c337b49f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 09/17] fix: CI fails when the coverage report cannot be copied

---
 scripts/ci_build_and_test_in_container.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ci_build_and_test_in_container.sh b/scripts/ci_build_and_test_in_container.sh
index d034dcf..6c060b0 100755
--- a/scripts/ci_build_and_test_in_container.sh
+++ b/scripts/ci_build_and_test_in_container.sh
@@ -67,7 +67,7 @@ fi
 if [[ "$*" == *--code-coverage* ]]; then
   or_die make -j ${NPROC} VERBOSE=1
   or_die make shiva_coverage
-  cp -r ${SHIVA_BUILD_DIR}/shiva_coverage.info.cleaned /tmp/Shiva/shiva_coverage.info.cleaned
+  or_die cp -r ${SHIVA_BUILD_DIR}/shiva_coverage.info.cleaned /tmp/Shiva/shiva_coverage.info.cleaned
 fi
 
 
-- 
2.43.0


From 8dc8cdee2ae69dd68ac1a7db09d0576f314abc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 10/17] fix: CI host configuration may contain spaces

---
 scripts/ci_build_and_test_in_container.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ci_build_and_test_in_container.sh b/scripts/ci_build_and_test_in_container.sh
index 6c060b0..f959cec 100755
--- a/scripts/ci_build_and_test_in_container.sh
+++ b/scripts/ci_build_and_test_in_container.sh
@@ -36,7 +36,7 @@ fi
 SHIVA_BUILD_DIR=/tmp/build
 SHIVA_INSTALL_DIR=/tmp/install
 or_die python3 scripts/config-build.py \
-               -hc ${HOST_CONFIG} \
+               -hc "${HOST_CONFIG}" \
                -bt ${CMAKE_BUILD_TYPE} \
                -bp ${SHIVA_BUILD_DIR} \
                -ip ${SHIVA_INSTALL_DIR}\
-- 
2.43.0


From 47accba10b49d7d8e9db425833d47d2731d0f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:25 +0000
Subject: [PATCH 11/17] fix: Gauss-Lobatto points for 6 to 9 nodes were 0 when
 asked for at run time

GaussLobattoSpacing::coordinate( int ) had no branch for N = 6 ... 9 and
returned 0 for every index, whereas coordinate< INDEX >() has the points.
---
 include/shiva/functions/spacing/Spacing.hpp | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 8f5ca29..ea4e73f 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -184,6 +184,30 @@ struct GaussLobattoSpacing
       // if ( index == 3 ) return  sqrt3div7;
       // if ( index == 4 ) return  1.0;
     }
+    else if constexpr ( N == 6 )
+    {
+      constexpr REAL_TYPE rval[6] = { -1.0, -0.7650553239294648, -0.2852315164806455,
+                                      0.2852315164806455, 0.7650553239294648, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 7 )
+    {
+      constexpr REAL_TYPE rval[7] = { -1.0, -0.83022389627857, -0.4688487934707, 0.0,
+                                      0.4688487934707, 0.83022389627857, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 8 )
+    {
+      constexpr REAL_TYPE rval[8] = { -1.0, -0.87174014850961, -0.59170018143314, -0.20929921790248,
+                                      0.20929921790248, 0.59170018143314, 0.87174014850961, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 9 )
+    {
+      constexpr REAL_TYPE rval[9] = { -1.0, -0.89975799541146, -0.67718627951074, -0.36311746382618, 0.0,
+                                      0.36311746382618, 0.67718627951074, 0.89975799541146, 1.0 };
+      return rval[index];
+    }
     return 0;
   }
 
-- 
2.43.0


From 9ddf8d6c10f97e4f250eb1fadc0a5fb12ebe4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 12/17] fix: LinearTransform::setData mixed up the support
 points of cells of higher order

The position in the coordinates was computed for two points per direction,
so that with more of them points shared entries and others were not used.
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 25b33e5..95aeaee 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -106,7 +106,8 @@ public:
 
   /**
    * @brief Sets the coordinates of the vertices of the cell
-   * @param[in] coords The coordinates of the vertices of the cell
+   * @param[in] coords The coordinates of the vertices of the cell, one for each
+   * support point, with the index of the first direction running fastest.
    */
   template< typename T >
   constexpr SHIVA_HOST_DEVICE SHIVA_FORCE_INLINE void setData( T const & coords )
@@ -121,7 +122,7 @@ public:
 
       for ( int i = 0; i < numDims; ++i )
       {
-        m_vertexCoords( a, b, c, i ) = coords[a + 2 * b + 4 * c][i];
+        m_vertexCoords( a, b, c, i ) = coords[a + SupportIndexType::range( 0 ) * ( b + SupportIndexType::range( 1 ) * c )][i];
       }
     } );
   }
-- 
2.43.0


From badc7ff2cff2c0110669472e72ccc1df661d87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 13/17] fix: aggregation takes a header that cannot be examined
 for a missing one

---
 scripts/aggregateOrSplit.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 9bf7959..844343f 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -62,6 +62,17 @@ class HeaderFileManager:
                 self.dependents[dependency] = set()
             self.dependents[dependency].add(header)
 
+    def path_exists(self, path):
+        """
+        Checks if a file exists. A path that cannot be examined is an error: it must
+        not be taken for a missing file, as another file might be used in its place.
+        """
+        try:
+            os.stat(path)
+        except (FileNotFoundError, NotADirectoryError):
+            return False
+        return True
+
     def resolve_path(self, included_file, base_path, include_paths):
         """
         Resolves the path of an included file using the following order:
@@ -71,18 +82,18 @@ class HeaderFileManager:
         """
         # 1. Check in the same directory
         same_dir_path = os.path.join(base_path, included_file)
-        if os.path.exists(same_dir_path):
+        if self.path_exists(same_dir_path):
             return os.path.normpath(same_dir_path)
 
         # 2. Check using the relative path
         relative_path = os.path.normpath(os.path.join(base_path, included_file))
-        if os.path.exists(relative_path):
+        if self.path_exists(relative_path):
             return relative_path
 
         # 3. Check in the include paths
         for include_path in include_paths:
             candidate_path = os.path.normpath(os.path.join(include_path, included_file))
-            if os.path.exists(candidate_path):
+            if self.path_exists(candidate_path):
                 return candidate_path
 
         return None  # Return None if no resolution was possible
-- 
2.43.0


From a87c27ca1477c68679c1a81a4a2763760ed25ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 14/17] fix: aggregation into one of its own headers emptied
 the header and claimed success

---
 scripts/aggregateOrSplit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 844343f..59e7dcc 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -159,11 +159,15 @@ class HeaderFileManager:
                     output.write("\n")
                 output.write(f"// ===== End of {header_path} =====\n")
 
+        for header in headers:
+            header = os.path.abspath(header)
+            self.create_dependency_graph(header, include_paths)
+
+        for header in self.dependencies:
+            if self.path_exists(output_file) and os.path.samefile(output_file, header):
+                raise ValueError(f"Refusing to overwrite a header with the output: {header}")
+
         with open(output_file, 'w') as output:
-            for header in headers:
-                header = os.path.abspath(header)
-                self.create_dependency_graph(header, include_paths)
-            
             for header in self.dependencies:
                 print( f"Header: {header} -> {self.dependencies[header]}\n")
             print( "\n\n")
-- 
2.43.0


From 7ee236caa93a2aa915e8afa9658c4e79ef389c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 15/17] fix: splitting overwrote an aggregated file that lies
 where one of its headers belongs

---
 scripts/aggregateOrSplit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 59e7dcc..21a77e3 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -212,6 +212,8 @@ class HeaderFileManager:
                     current_file = start_match.group(1)
                     output_path = self.split_path(output_dir, current_file)
                     os.makedirs(os.path.dirname(output_path), exist_ok=True)
+                    if self.path_exists(output_path) and os.path.samefile(output_path, aggregated_file):
+                        raise ValueError(f"Refusing to overwrite the aggregated file: {output_path}")
                     output = open(output_path, 'w')
                 elif end_match:
                     if output:
-- 
2.43.0


From fba282b00619e26f7b97ffece2f7e958c28e502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 16/17] fix: basis values and gradients did not compile as
 C++20

---
 include/shiva/functions/bases/BasisProduct.hpp  | 2 +-
 include/shiva/functions/bases/LagrangeBasis.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/shiva/functions/bases/BasisProduct.hpp b/include/shiva/functions/bases/BasisProduct.hpp
index 2e19417..f6119c2 100644
--- a/include/shiva/functions/bases/BasisProduct.hpp
+++ b/include/shiva/functions/bases/BasisProduct.hpp
@@ -94,7 +94,7 @@ struct BasisProduct
     // expand pack over number of dimensions
     return executeSequence< numDims >( [&]< int ... PRODUCT_TERM_INDEX > () constexpr
     {
-      return ( BASIS_TYPE::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
+      return ( BASIS_TYPES::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
     } );
 #else
     return executeSequence< numDims >( [&] ( auto ... PRODUCT_TERM_INDEX ) constexpr
diff --git a/include/shiva/functions/bases/LagrangeBasis.hpp b/include/shiva/functions/bases/LagrangeBasis.hpp
index 9330885..b65b6ae 100644
--- a/include/shiva/functions/bases/LagrangeBasis.hpp
+++ b/include/shiva/functions/bases/LagrangeBasis.hpp
@@ -119,10 +119,11 @@ public:
 #if __cplusplus >= 202002L
     return executeSequence< numSupportPoints >( [&coord]< int ... a > () constexpr
     {
-      auto func = [&coord]< int ... b > ( auto aa ) constexpr
+      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, a >( coord )... };
+      auto func = [&values]< int ... b > ( auto aa ) constexpr
       {
         constexpr int aVal = decltype(aa)::value;
-        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< BF_INDEX, b, aVal >( coord ) * ... );
+        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< b, aVal >( values ) * ... );
       };
 
       return ( executeSequence< numSupportPoints >( func, std::integral_constant< int, a >{} ) + ... );
-- 
2.43.0


From a48e9b1cbc186b6c07280773f7bcde61f6f5447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 17/17] fix: the umbrella header named headers that do not
 exist

---
 include/shiva/Shiva.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/Shiva.hpp b/include/shiva/Shiva.hpp
index 6aa79b3..8442e72 100644
--- a/include/shiva/Shiva.hpp
+++ b/include/shiva/Shiva.hpp
@@ -11,6 +11,6 @@
  * ------------------------------------------------------------------------------------------------------------
  */
 
-#include "geometry/Cube.hpp"
-#include "geometry/Cuboid.hpp"
-#include "geometry/RectangularCuboid.hpp"
+#include "geometry/mapping/UniformScaling.hpp"
+#include "geometry/mapping/Scaling.hpp"
+#include "geometry/mapping/LinearTransform.hpp"
-- 
2.43.0

