From 2090b8ce21ecdda0acab88bc54be5843f32ac087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 01/30] fix: streamline gaps are ordered independently of
 thread timing

---
 libvvhd/src/XStreamfunction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 1e906f7..71a5dc5 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -4,6 +4,7 @@
 #include "MEpsilonFast.hpp"
 #include "elementary.h"
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -114,6 +115,11 @@ void XStreamfunction::evaluate()
         }
     }
 
+    // threads find the gaps in any order, but the order affects rounding of their sum
+    std::sort(gaps.begin(), gaps.end(), [](const TGap& a, const TGap& b) {
+        return a.yj != b.yj ? a.yj < b.yj : a.xi < b.xi;
+    });
+
     evaluated = true;
 }
 
-- 
2.43.0


From 0f74c51668cdcd9c84589926d09bb38d80d35255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 02/30] fix: S:load() forgets the sources of the previous state

Space::load() cleared every list except SourceList.  Loading a snapshot
without sources kept the ones of whatever had been loaded before.
---
 libvvhd/src/TSpace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4c796a6..4a810b1 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -40,6 +40,7 @@ void Space::load(const char* fname, metainfo_t *info)
     BodyList.clear();
     VortexList.clear();
     HeatList.clear();
+    SourceList.clear();
     StreakSourceList.clear();
     StreakList.clear();
 
-- 
2.43.0


From 4dd01fe6de95abbcfb3d7c8ccc00902f9dbc819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 03/30] fix: the order of more than 100 bodies survives save
 and load

Names were sorted as text, so body100 came before body11 and every body
after it got another index.  get_body_name() also overflowed its buffer
from body1000 on.
---
 libvvhd/src/TSpace.cpp          | 4 ++--
 libvvhd/src/TSpace_load_hdf.cpp | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4a810b1..5297174 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -219,7 +219,7 @@ int Space::get_body_index(const TBody* body) const
 
 std::string Space::get_body_name(const TBody* body) const
 {
-    char name[8];
-    sprintf(name, "body%02d", get_body_index(body));
+    char name[32];
+    snprintf(name, sizeof(name), "body%02d", get_body_index(body));
     return std::string(name);
 }
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 21f9553..ca235d5 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -6,7 +6,13 @@
 #include "vvhdf.h"
 
 #include <map>
-typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
+// numeric order: body99 goes before body100
+struct body_name_less {
+    bool operator()(const std::string& a, const std::string& b) const {
+        return a.size() != b.size() ? a.size() < b.size() : a < b;
+    }
+};
+typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
-- 
2.43.0


From dca1dc0c78c3f27bfebe199660378245f08f5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 04/30] fix: failures of save, load and simulate are Lua
 errors, not aborts

---
 utils/vvflow/lua_space.cpp | 21 ++++++++++++++++-----
 utils/vvflow/vvflow.cpp    | 26 ++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/utils/vvflow/lua_space.cpp b/utils/vvflow/lua_space.cpp
index adea519..5e7451f 100644
--- a/utils/vvflow/lua_space.cpp
+++ b/utils/vvflow/lua_space.cpp
@@ -4,13 +4,21 @@
 #include "getset.h"
 
 #include <cstring>
+#include <stdexcept>
 
 static int space_load(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
     const char* fname = luaL_checkstring(L, 2);
-    S->load(fname);
-    return 0;
+    try {
+        S->load(fname);
+        return 0;
+    } catch (const std::exception &e) {
+        luaL_where(L, 1);
+        lua_pushstring(L, e.what());
+    }
+    lua_concat(L, 2);
+    return lua_error(L);
 }
 
 static int space_save(lua_State *L) {
@@ -19,10 +27,13 @@ static int space_save(lua_State *L) {
     const char* fname = luaL_checkstring(L, 2);
     try {
         S->save(fname);
-    } catch (const std::invalid_argument &e) {
-        return luaL_error(L, e.what());
+        return 0;
+    } catch (const std::exception &e) {
+        luaL_where(L, 1);
+        lua_pushstring(L, e.what());
     }
-    return 0;
+    lua_concat(L, 2);
+    return lua_error(L);
 }
 
 static int space_xstreamfunction(lua_State *L) {
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4f5d477..b5cda30 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstdio>
+#include <stdexcept>
 
 #include <sys/stat.h>
 #include <sys/types.h>
@@ -159,7 +160,12 @@ int main(int argc, char* const* argv)
             throw std::runtime_error("Internal error 0x180");
         }
         Space &S = **ptr;
-        S.load(opt::input);
+        try {
+            S.load(opt::input);
+        } catch (const std::exception& e) {
+            fprintf(stderr, "%s\n", e.what());
+            return 8;
+        }
         ret = luaL_dostring(L, "simulate()");
     } else {
         ret = luaL_dofile(L, opt::input);
@@ -174,7 +180,21 @@ int main(int argc, char* const* argv)
     return 0;
 }
 
+static int run_simulation(lua_State *L);
+
+// turns exceptions into Lua errors
 int simulate (lua_State *L) {
+    try {
+        return run_simulation(L);
+    } catch (const std::exception& e) {
+        luaL_where(L, 1);
+        lua_pushstring(L, e.what());
+    }
+    lua_concat(L, 2);
+    return lua_error(L);
+}
+
+static int run_simulation(lua_State *L) {
     lua_getglobal(L, "S");
     Space **ptr = (Space**)lua_touserdata(L, -1);
     lua_pop(L, 1);
@@ -185,9 +205,7 @@ int simulate (lua_State *L) {
     Space &S = **ptr;
 
     // error checking
-    #define RAISE(STR) { cerr << "vvflow ERROR: " << STR << endl; return -1; }
-    if (S.re <= 0) RAISE("invalid value re<=0");
-    #undef RAISE
+    if (S.re <= 0) throw std::invalid_argument("invalid value re<=0");
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
     char f_stepdata[256]; snprintf(f_stepdata, 256, "stepdata_%s.h5", S.caption.c_str());
-- 
2.43.0


From a1c201bf0b1769653eec43f4bec52b54dddfd47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 05/30] fix: a snapshot appears under its name only when it is
 complete

---
 libvvhd/headers/vvhdf.h   |  1 +
 libvvhd/src/TSpace.cpp    | 63 ++++++++++++++++++++++++++++++++-------
 libvvhd/src/vvhdf_h5t.cpp | 17 +++++++++++
 utils/vvflow/vvflow.cpp   | 21 +++++++------
 4 files changed, 83 insertions(+), 19 deletions(-)

diff --git a/libvvhd/headers/vvhdf.h b/libvvhd/headers/vvhdf.h
index 97d4290..4199abb 100644
--- a/libvvhd/headers/vvhdf.h
+++ b/libvvhd/headers/vvhdf.h
@@ -29,6 +29,7 @@ void h5t_close();
 
 void h5t_commit_all(hid_t hid);
 void h5t_close_all();
+void h5t_reset_all(); // after a failure
 
 template<typename T>
 // <int32_t>
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 5297174..6c9974b 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -5,6 +5,9 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <cerrno>
+#include <cstdio>
+#include <cstring>
 #include <fstream>
 #include <limits>
 using std::fstream;
@@ -35,6 +38,14 @@ Space::Space():
     StreakList()
 {}
 
+// Closing the file closes everything in it, even after a failure
+static hid_t strong_close()
+{
+    hid_t fapl = H5Pcreate(H5P_FILE_ACCESS);
+    H5Pset_fclose_degree(fapl, H5F_CLOSE_STRONG);
+    return fapl;
+}
+
 void Space::load(const char* fname, metainfo_t *info)
 {
     BodyList.clear();
@@ -51,17 +62,26 @@ void Space::load(const char* fname, metainfo_t *info)
         return;
     }
 
-    hid_t fid = H5Fopen(fname, H5F_ACC_RDONLY, H5P_DEFAULT);
+    hid_t fapl = strong_close();
+    hid_t fid = H5Fopen(fname, H5F_ACC_RDONLY, fapl);
+    H5Pclose(fapl);
     if (fid < 0)
         h5_throw("H5Fopen", fname);
 
-    load_hdf(fid, info);
+    try {
+        load_hdf(fid, info);
+    } catch (...) {
+        h5t_reset_all();
+        H5Fclose(fid);
+        throw;
+    }
 
     herr_t err = H5Fclose(fid);
     if (err < 0)
         h5_throw("H5Fclose", fname);
 }
 
+// The file appears under its name only when it is complete
 void Space::save(const char* format)
 {
     for (std::shared_ptr<TBody>& lbody: BodyList)
@@ -69,18 +89,41 @@ void Space::save(const char* format)
         lbody->validate(/*critical=*/true);
     }
 
-    char fname[64];
-    snprintf(fname, 64, format, int(time/dt+0.5));
+    const int step = int(time/dt+0.5);
+    int len = snprintf(NULL, 0, format, step);
+    if (len < 0)
+        throw std::invalid_argument("Bad file name");
+    std::vector<char> fname(len+1);
+    snprintf(fname.data(), fname.size(), format, step);
+    const std::string tmpname = std::string(fname.data()) + ".tmp";
+
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t fapl = strong_close();
+    hid_t fid = H5Fcreate(tmpname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, fapl);
+    H5Pclose(fapl);
     if (fid < 0)
-        h5_throw("H5Fcreate", fname);
-
-    save_hdf(fid);
+        h5_throw("H5Fcreate", fname.data());
+
+    try {
+        save_hdf(fid);
+    } catch (...) {
+        h5t_reset_all();
+        H5Fclose(fid);
+        remove(tmpname.c_str());
+        throw;
+    }
 
     herr_t err = H5Fclose(fid);
-    if (err < 0)
-        h5_throw("H5Fclose", fname);
+    if (err < 0) {
+        remove(tmpname.c_str());
+        h5_throw("H5Fclose", fname.data());
+    }
+
+    if (rename(tmpname.c_str(), fname.data()) < 0) {
+        std::string reason = strerror(errno);
+        remove(tmpname.c_str());
+        throw std::runtime_error("rename (" + std::string(fname.data()) + ") failed: " + reason);
+    }
 }
 
 FILE* Space::open_file(const char* format)
diff --git a/libvvhd/src/vvhdf_h5t.cpp b/libvvhd/src/vvhdf_h5t.cpp
index c651b56..10425e7 100644
--- a/libvvhd/src/vvhdf_h5t.cpp
+++ b/libvvhd/src/vvhdf_h5t.cpp
@@ -127,3 +127,20 @@ void h5t_close_all()
     h5t_close<const char*>();
     h5t_close<TTime>();
 }
+
+// RESET
+template<typename T>
+static void h5t_reset()
+{
+    if (h5t<T>::id >= 0)
+        H5Tclose(h5t<T>::id);
+    h5t<T>::id = -1;
+}
+
+void h5t_reset_all()
+{
+    h5t_reset<TVec>();
+    h5t_reset<TVec3D>();
+    h5t_reset<const char*>();
+    h5t_reset<TTime>();
+}
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index b5cda30..0ae29e3 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -208,12 +208,17 @@ static int run_simulation(lua_State *L) {
     if (S.re <= 0) throw std::invalid_argument("invalid value re<=0");
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
-    char f_stepdata[256]; snprintf(f_stepdata, 256, "stepdata_%s.h5", S.caption.c_str());
-    char f_results[240]; snprintf(f_results, 240, "results_%s", S.caption.c_str());
-    char f_sensors_output[256]; snprintf(f_sensors_output, 256, "velocity_%s", S.caption.c_str());
-    mkdir(f_results, 0777);
+    const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
+    const std::string f_results = "results_" + S.caption;
+    const std::string f_sensors_output = "velocity_" + S.caption;
+    mkdir(f_results.c_str(), 0777);
 
-    Stepdata stepdata = {&S, f_stepdata, !!opt::save_profile};
+    // a format for Space::save()
+    std::string f_save;
+    for (char c: f_results) f_save.append(c == '%' ? 2 : 1, c);
+    f_save += "/%06d.h5";
+
+    Stepdata stepdata = {&S, f_stepdata.c_str(), !!opt::save_profile};
 
     double dl = S.average_segment_length();
     double min_node_size = dl>0 ? dl*5 : 0;
@@ -223,7 +228,7 @@ static int run_simulation(lua_State *L) {
     MEpsilonFast epsilon = {&S, &tr};
     MDiffusiveFast diffusive = {&S, &tr};
     MFlowmove flowmove = {&S};
-    sensors sens(&S, &convective, opt::sensors_file, f_sensors_output);
+    sensors sens(&S, &convective, opt::sensors_file, f_sensors_output.c_str());
     #ifdef OVERRIDEMOI
         S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
     #endif
@@ -248,9 +253,7 @@ static int run_simulation(lua_State *L) {
 
         if (S.time.divisibleBy(S.dt_save)  && (double(S.time) >= 0))
         {
-            char tmp_filename[256];
-            snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
-            S.save(tmp_filename);
+            S.save(f_save.c_str());
             stepdata.flush();
         }
 
-- 
2.43.0


From 50f3cdc2435c93ea33e08839560bc25e4e9bbfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 06/30] fix: errors of the step history are reported and never
 discard it

---
 libvvhd/headers/MStepdata.hpp |   3 +
 libvvhd/src/MStepdata.cpp     | 102 +++++++++++++++++++++++++---------
 2 files changed, 79 insertions(+), 26 deletions(-)

diff --git a/libvvhd/headers/MStepdata.hpp b/libvvhd/headers/MStepdata.hpp
index 3da5c8b..b0dfb02 100644
--- a/libvvhd/headers/MStepdata.hpp
+++ b/libvvhd/headers/MStepdata.hpp
@@ -13,8 +13,11 @@ class Stepdata
         ~Stepdata();
         void write();
         void flush();
+        void close();
 
     private:
+        void open(const char* fname);
+        bool close_all();
         int64_t h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols);
         void append(int64_t h5d, const void* buf);
         void append(int64_t h5d, double value);
diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index c68a7d5..a7ae8f3 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -5,7 +5,9 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <cerrno>
 #include <limits>
+#include <unistd.h>
 
 static const float f_nan = std::numeric_limits<float>::quiet_NaN();
 
@@ -13,8 +15,8 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     S(S),
     b_save_profile(b_save_profile),
     blsize(S->BodyList.size()),
-    last_flush_time(0),
-    h5f(),
+    last_flush_time(-1),
+    h5f(-1),
     time_h5d(-1),
     force_hydro_h5d(),
     force_holder_h5d(),
@@ -36,11 +38,29 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     pressure_h5d.resize(blsize, -1);
     friction_h5d.resize(blsize, -1);
 
+    try {
+        open(fname);
+    } catch (...) {
+        h5t_reset_all();
+        close_all();
+        throw;
+    }
+}
+
+void Stepdata::open(const char* fname)
+{
     size_t rows = 0;
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    if (H5Fis_hdf5(fname)<=0)
+    htri_t is_hdf5 = H5Fis_hdf5(fname);
+    // do not take an unreadable file for a missing one
+    if (is_hdf5 < 0 && (access(fname, F_OK) == 0 || errno != ENOENT))
+        h5_throw("H5Fis_hdf5", fname);
+    hid_t fapl = H5Pcreate(H5P_FILE_ACCESS);
+    H5Pset_fclose_degree(fapl, H5F_CLOSE_STRONG);
+    if (is_hdf5 <= 0)
     {
-        h5f = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+        h5f = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, fapl);
+        H5Pclose(fapl);
         if (h5f < 0)
             h5_throw("H5Fcreate", fname);
 
@@ -51,7 +71,8 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
         h5t_commit<const char*>(h5f);
         h5t_close<const char*>();
     } else {
-        h5f = H5Fopen(fname, H5F_ACC_RDWR, H5P_DEFAULT);
+        h5f = H5Fopen(fname, H5F_ACC_RDWR, fapl);
+        H5Pclose(fapl);
         if (h5f < 0)
             h5_throw("H5Fcreate", fname);
 
@@ -66,15 +87,16 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
                 h5_throw("H5Dget_space", "time");
             hsize_t dims[2];
             H5Sget_simple_extent_dims(h5s, dims, NULL);
-            float* tbuf = new float[dims[0]*dims[1]];
-            H5Dread(h5d, H5T_NATIVE_FLOAT, h5s, h5s, H5P_DEFAULT, tbuf);
+            std::vector<float> tbuf(dims[0]*dims[1]);
+            herr_t err = H5Dread(h5d, H5T_NATIVE_FLOAT, h5s, h5s, H5P_DEFAULT, tbuf.data());
+            if (err < 0)
+                h5_throw("H5Dread", "time");
             for (rows=0; rows<dims[0] && tbuf[rows*dims[1]] < float(S->time); rows++)
             {
                 /* DO NOTHING */;
             }
             H5Sclose(h5s);
             H5Dclose(h5d);
-            delete [] tbuf;
         }
     }
 
@@ -82,8 +104,9 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
-        if (body_n > blsize) continue;
-        const char *bname = S->get_body_name(lbody.get()).c_str();
+        if (body_n >= blsize) continue;
+        const std::string name = S->get_body_name(lbody.get());
+        const char *bname = name.c_str();
         hid_t body_h5g;
         if (!H5Lexists(h5f, bname, H5P_DEFAULT))
         {
@@ -128,26 +151,50 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
 
 Stepdata::~Stepdata()
 {
-    H5Dclose(time_h5d);
+    close_all();
+}
+
+void Stepdata::close()
+{
+    if (!close_all())
+        h5_throw("H5Fclose", "stepdata");
+}
+
+bool Stepdata::close_all()
+{
+    bool ok = true;
+    auto close_dataset = [&ok](int64_t& h5d) {
+        if (h5d >= 0 && H5Dclose(h5d) < 0) ok = false;
+        h5d = -1;
+    };
+
+    close_dataset(time_h5d);
     for (size_t i=0; i<blsize; i++)
     {
-        if (force_hydro_h5d[i]    >= 0) H5Dclose(force_hydro_h5d[i]);
-        if (force_holder_h5d[i]   >= 0) H5Dclose(force_holder_h5d[i]);
-        if (force_friction_h5d[i] >= 0) H5Dclose(force_friction_h5d[i]);
-        if (nusselt_h5d[i]        >= 0) H5Dclose(nusselt_h5d[i]);
-        if (position_h5d[i]       >= 0) H5Dclose(position_h5d[i]);
-        if (spring_h5d[i]         >= 0) H5Dclose(spring_h5d[i]);
-        if (speed_h5d[i]          >= 0) H5Dclose(speed_h5d[i]);
-        if (pressure_h5d[i]       >= 0) H5Dclose(pressure_h5d[i]);
-        if (friction_h5d[i]       >= 0) H5Dclose(friction_h5d[i]);
+        close_dataset(force_hydro_h5d[i]);
+        close_dataset(force_holder_h5d[i]);
+        close_dataset(force_friction_h5d[i]);
+        close_dataset(nusselt_h5d[i]);
+        close_dataset(position_h5d[i]);
+        close_dataset(spring_h5d[i]);
+        close_dataset(speed_h5d[i]);
+        close_dataset(pressure_h5d[i]);
+        close_dataset(friction_h5d[i]);
     }
 
-    H5Fclose(h5f);
+    if (h5f >= 0 && H5Fclose(h5f) < 0) ok = false;
+    h5f = -1;
+    return ok;
 }
 
 void Stepdata::flush()
 {
-    last_flush_time = 0;
+    if (H5Fflush(h5f, H5F_SCOPE_GLOBAL) < 0)
+        h5_throw("H5Fflush", "stepdata");
+
+    struct timespec clk;
+    clock_gettime(CLOCK_MONOTONIC, &clk);
+    last_flush_time = clk.tv_sec;
 }
 
 void Stepdata::write()
@@ -157,7 +204,7 @@ void Stepdata::write()
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
-        if (body_n > blsize) continue;
+        if (body_n >= blsize) continue;
         append(force_hydro_h5d[body_n], lbody->force_hydro);
         append(force_holder_h5d[body_n], lbody->force_holder);
         append(force_friction_h5d[body_n], lbody->friction);
@@ -184,10 +231,9 @@ void Stepdata::write()
 
     struct timespec clk;
     clock_gettime(CLOCK_MONOTONIC, &clk);
-    if (clk.tv_sec - last_flush_time > 20)
+    if (last_flush_time < 0 || clk.tv_sec - last_flush_time > 20)
     {
-        H5Fflush(h5f, H5F_SCOPE_GLOBAL);
-        last_flush_time = clk.tv_sec;
+        flush();
     }
 }
 
@@ -259,6 +305,8 @@ int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t
     if (H5Lexists(loc_id, name, H5P_DEFAULT))
     {
         h5d = H5Dopen(loc_id, name, H5P_DEFAULT);
+        if (h5d < 0)
+            h5_throw("H5Dopen", name);
         hid_t h5s = H5Dget_space(h5d);
 
         hsize_t cur_dims[2];
@@ -284,6 +332,8 @@ int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t
         h5d = H5Dcreate(loc_id, name, H5T_NATIVE_FLOAT, h5s, H5P_DEFAULT, h5p, H5P_DEFAULT);
         H5Sclose(h5s);
         H5Pclose(h5p);
+        if (h5d < 0)
+            h5_throw("H5Dcreate", name);
     }
 
     return h5d;
-- 
2.43.0


From 645e07e156b59dcb9d3db0bdcf5ead5b503fc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 07/30] fix: read errors of lists and snapshots are reported

---
 libvvhd/src/TSpace.cpp          |  6 ++++--
 libvvhd/src/TSpace_load_v13.cpp | 12 +++++++++++-
 utils/vvflow/lua_objlist.cpp    |  5 ++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 6c9974b..b06fb44 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -198,8 +198,9 @@ int Space::load_list_txt(std::vector<TObj>& li, const char* filename)
         li.push_back(obj);
     }
 
+    const int err = ferror(fin) ? EIO : 0;
     fclose(fin);
-    return 0;
+    return err;
 }
 
 int Space::load_list_bin(std::vector<TObj>& li, const char* filename)
@@ -214,8 +215,9 @@ int Space::load_list_bin(std::vector<TObj>& li, const char* filename)
         li.push_back(obj);
     }
 
+    const int err = fin.bad() ? EIO : 0;
     fin.close();
-    return 0;
+    return err;
 }
 
 int Space::load_body_txt(const char* filename)
diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index b6f1897..4a31670 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -1,5 +1,9 @@
 #include "TSpace.hpp"
 
+#include <cerrno>
+#include <cstring>
+#include <stdexcept>
+
 static int eq(const char *str1, const char *str2)
 {
     for (int i=0; i<8; i++)
@@ -34,7 +38,9 @@ static void read_shell_script(FILE* file, TEval &script)
 void Space::load_v13(const char* fname)
 {
     FILE *fin = fopen(fname, "rb");
-    if (!fin) { perror("Error loading the space"); return; }
+    if (!fin) throw std::runtime_error(std::string(fname) + ": " + strerror(errno));
+    // an empty file is an empty space
+    bool has_header = fgetc(fin) == EOF && !ferror(fin);
 
     //loading different lists
     int64_t tmp = 0;
@@ -56,6 +62,7 @@ void Space::load_v13(const char* fname)
                 exit(1);
             }
 
+            has_header = true;
             char name[64];
             fread(name, 1, 64, fin);
             caption = name;
@@ -145,6 +152,9 @@ void Space::load_v13(const char* fname)
         }
     }
 
+    fclose(fin);
+    if (!has_header) throw std::runtime_error(std::string(fname) + ": not a space");
+
     EnumerateBodies();
 
     return;
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index dab6d4f..fb5d641 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -42,7 +42,10 @@ static int objlist_load_txt(lua_State *L) {
 static int objlist_load_bin(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     const char* fname = luaL_checkstring(L, 2);
-    Space::load_list_bin(*li, fname);
+    int err = Space::load_list_bin(*li, fname);
+    if (err) {
+        luaL_error(L, "can not load '%s' (%s)", fname, strerror(err));
+    }
     return 0;
 }
 
-- 
2.43.0


From 24c7195d801a349fcb1ddd103ee8e48a7782e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 08/30] fix: sensor errors are reported, steps before a
 snapshot are flushed first

---
 utils/vvflow/sensors.cpp | 31 ++++++++++++++++++++++++++++---
 utils/vvflow/vvflow.cpp  |  4 +++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/utils/vvflow/sensors.cpp b/utils/vvflow/sensors.cpp
index 20c3b48..e7feabd 100644
--- a/utils/vvflow/sensors.cpp
+++ b/utils/vvflow/sensors.cpp
@@ -1,10 +1,19 @@
 #include "MConvectiveFast.hpp"
 
 // #include <cstdio>
+#include <cerrno>
+#include <cstring>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 using std::vector;
 
+static void sensors_error(const std::string& fname)
+{
+	throw std::runtime_error("Sensors file '" + fname + "': " + strerror(errno));
+}
+
 class sensors
 {
 	public:
@@ -15,11 +24,13 @@ class sensors
 		~sensors();
 		void loadFile(const char* file);
 		void output();
+		void close();
 
 	private:
 		Space *S;
 		MConvectiveFast *conv;
 		FILE *fout;
+		const std::string fname;
 		vector <TVec> slist;
 };
 
@@ -27,10 +38,13 @@ sensors::sensors(Space* S, MConvectiveFast *conv, const char* sensors_file, cons
 	S(S),
 	conv(conv),
 	fout(nullptr),
+	fname(output),
 	slist()
 {
 	loadFile(sensors_file);
-	if (slist.size()) fout = fopen(output, "a");
+	if (slist.empty()) return;
+	fout = fopen(output, "a");
+	if (!fout) sensors_error(fname);
 }
 
 sensors::~sensors()
@@ -44,7 +58,7 @@ void sensors::loadFile(const char* file)
 	if (!file) return;
 
 	FILE *fin = fopen(file, "r");
-	if (!fin) { std::cerr << "No file called \'" << file << "\'" << std::endl; return; }
+	if (!fin) sensors_error(file);
 
 	TVec vec(0, 0);
 	while ( fscanf(fin, "%lf %lf", &vec.x, &vec.y)==2 )
@@ -52,7 +66,9 @@ void sensors::loadFile(const char* file)
 		slist.push_back(vec);
 	}
 
+	const bool failed = ferror(fin);
 	fclose(fin);
+	if (failed) throw std::runtime_error("Sensors file '" + std::string(file) + "': read error");
 }
 
 void sensors::output()
@@ -66,5 +82,14 @@ void sensors::output()
 		fprintf(fout, " \t%lg \t%lg", tmp.x, tmp.y);
 	}
 	fprintf(fout, "\n");
-	fflush(fout);
+	if (fflush(fout) || ferror(fout)) sensors_error(fname);
+}
+
+void sensors::close()
+{
+	if (!fout) return;
+
+	FILE *f = fout;
+	fout = nullptr;
+	if (fclose(f)) sensors_error(fname);
 }
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 0ae29e3..4e6a112 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -253,8 +253,8 @@ static int run_simulation(lua_State *L) {
 
         if (S.time.divisibleBy(S.dt_save)  && (double(S.time) >= 0))
         {
+            stepdata.flush(); // a run resumed from the snapshot finds all previous steps
             S.save(f_save.c_str());
-            stepdata.flush();
         }
 
         dbg(flowmove.vortex_shed());
@@ -289,5 +289,7 @@ static int run_simulation(lua_State *L) {
     if (opt::show_progress)
         fprintf(stderr, "\n");
 
+    sens.close();
+    stepdata.close();
     return 0;
 }
-- 
2.43.0


From 175f93bac9b7efe64b6d3c0d6642a3e08641b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 09/30] fix: errors while reading the bodies of a snapshot are
 reported

---
 libvvhd/src/TSpace_load_hdf.cpp | 16 ++++++++++++----
 libvvhd/src/vvhdf_h5t.cpp       | 33 +++++++++++++++++++--------------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index ca235d5..7ffcdd2 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -28,7 +28,8 @@ static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& li
         h5_throw("H5Dget_space", name);
 
     hsize_t dims1[2];
-    H5Sget_simple_extent_dims(h5s_file, dims1, dims1);
+    if (H5Sget_simple_extent_dims(h5s_file, dims1, dims1) < 0)
+        h5_throw("H5Sget_simple_extent_dims", name);
 
     hsize_t dims2[2] = {dims1[0]*2, dims1[1]};
     hid_t h5s_mem = H5Screate_simple(2, dims2, dims2);
@@ -62,7 +63,8 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     if (h5s_file < 0)
         h5_throw("H5Dget_space", name);
     hsize_t dims[2];
-    H5Sget_simple_extent_dims(h5s_file, dims, dims);
+    if (H5Sget_simple_extent_dims(h5s_file, dims, dims) < 0)
+        h5_throw("H5Sget_simple_extent_dims", name);
     hsize_t N = dims[0];
 
     body. label = h5a_read<std::string> (h5d, "label");
@@ -142,7 +144,11 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         {
             // slip_array = (uint32_t*)malloc(dims[0] * sizeof(uint32_t));
             hid_t aid = H5Aopen(h5d, "slip", H5P_DEFAULT);
-            H5Aread(aid, H5T_NATIVE_UINT32, slip_array);
+            if (aid < 0)
+                h5_throw("H5Aopen", "slip");
+            err = H5Aread(aid, H5T_NATIVE_UINT32, slip_array);
+            if (err < 0)
+                h5_throw("H5Aread", "slip");
             H5Aclose(aid);
         }
         else
@@ -216,7 +222,9 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
     dataset_read_list(fid, "source", SourceList);
 
     body_map_t body_map;
-    H5Literate(fid, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, list_bodies, &body_map);
+    herr_t err = H5Literate(fid, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, list_bodies, &body_map);
+    if (err < 0)
+        h5_throw("H5Literate", "body");
 
     for (const auto& pair: body_map) {
         const std::string& name = pair.first;
diff --git a/libvvhd/src/vvhdf_h5t.cpp b/libvvhd/src/vvhdf_h5t.cpp
index 10425e7..9c522d4 100644
--- a/libvvhd/src/vvhdf_h5t.cpp
+++ b/libvvhd/src/vvhdf_h5t.cpp
@@ -27,6 +27,15 @@ template<> const char* h5t<const char*>::name = "string_t";
 template<> const char* h5t<TTime>::name = "fraction_t";
 
 // INIT
+static hid_t checked(bool ok, hid_t& id, const char* name)
+{
+    if (ok) return id;
+    if (id >= 0) H5Tclose(id);
+    id = -1;
+    h5_throw("H5Tcreate", name);
+    return -1;
+}
+
 template<> hid_t h5t<int32_t>::init() {return id;}
 template<> hid_t h5t<uint32_t>::init() {return id;}
 template<> hid_t h5t<double>::init() {return id;}
@@ -34,35 +43,31 @@ template<> hid_t h5t<TVec>::init()
 {
     if (id >= 0) return id;
     id = H5Tcreate(H5T_COMPOUND, 16);
-    H5Tinsert(id, "x", 0, H5T_NATIVE_DOUBLE);
-    H5Tinsert(id, "y", 8, H5T_NATIVE_DOUBLE);
-    H5Tpack(id);
-    return id;
+    return checked(H5Tinsert(id, "x", 0, H5T_NATIVE_DOUBLE) >= 0
+        && H5Tinsert(id, "y", 8, H5T_NATIVE_DOUBLE) >= 0
+        && H5Tpack(id) >= 0, id, name);
 }
 template<> hid_t h5t<TVec3D>::init()
 {
     if (id >= 0) return id;
     id = H5Tcreate(H5T_COMPOUND, 24);
-    H5Tinsert(id, "x", 0, H5T_NATIVE_DOUBLE);
-    H5Tinsert(id, "y", 8, H5T_NATIVE_DOUBLE);
-    H5Tinsert(id, "o", 16, H5T_NATIVE_DOUBLE);
-    H5Tpack(id);
-    return id;
+    return checked(H5Tinsert(id, "x", 0, H5T_NATIVE_DOUBLE) >= 0
+        && H5Tinsert(id, "y", 8, H5T_NATIVE_DOUBLE) >= 0
+        && H5Tinsert(id, "o", 16, H5T_NATIVE_DOUBLE) >= 0
+        && H5Tpack(id) >= 0, id, name);
 }
 template<> hid_t h5t<const char*>::init()
 {
     if (id >= 0) return id;
     id = H5Tcopy(H5T_C_S1);
-    H5Tset_size(id, H5T_VARIABLE);
-    return id;
+    return checked(H5Tset_size(id, H5T_VARIABLE) >= 0, id, name);
 }
 template<> hid_t h5t<TTime>::init()
 {
     if (id >= 0) return id;
     id = H5Tcreate(H5T_COMPOUND, 8);
-    H5Tinsert(id, "value", 0, H5T_STD_I32LE);
-    H5Tinsert(id, "timescale", 4, H5T_STD_U32LE);
-    return id;
+    return checked(H5Tinsert(id, "value", 0, H5T_STD_I32LE) >= 0
+        && H5Tinsert(id, "timescale", 4, H5T_STD_U32LE) >= 0, id, name);
 }
 
 // COMMIT
-- 
2.43.0


From 1f60079e98bba198905c3cc8a6d2cea477f38ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 10/30] fix: a resumed simulation continues with vortex radii
 and friction

---
 libvvhd/src/TSpace_load_hdf.cpp | 33 ++++++++++++++++++++++++++
 libvvhd/src/TSpace_save_hdf.cpp | 41 +++++++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 7ffcdd2..ba30d9d 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -51,6 +51,33 @@ static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& li
         h5_throw("H5Dclose", name);
 }
 
+// zeros if there is no such dataset
+static std::vector<double> dataset_read_column(hid_t fid, std::string name, size_t size)
+{
+    std::vector<double> column(size);
+    if (!H5Lexists(fid, name.c_str(), H5P_DEFAULT))
+        return column;
+
+    hid_t h5d = H5Dopen(fid, name.c_str(), H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dopen", name);
+
+    hid_t h5s = H5Dget_space(h5d);
+    if (h5s < 0)
+        h5_throw("H5Dget_space", name);
+    if (H5Sget_simple_extent_npoints(h5s) != hssize_t(size))
+        throw std::runtime_error("The size of the dataset '" + name + "' is wrong");
+
+    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, column.data());
+    if (err < 0)
+        h5_throw("H5Dread", name);
+    err = H5Dclose(h5d);
+    if (err < 0)
+        h5_throw("H5Dclose", name);
+
+    return column;
+}
+
 static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
 {
     TBody& body = *body_map[name];
@@ -216,6 +243,9 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
     }
 
     dataset_read_list(fid, "vort", VortexList);
+    std::vector<double> eps = dataset_read_column(fid, "vort_1_eps", VortexList.size());
+    for (size_t i = 0; i < eps.size(); i++)
+        VortexList[i]._1_eps = eps[i];
     dataset_read_list(fid, "heat", HeatList);
     dataset_read_list(fid, "ink", StreakList);
     dataset_read_list(fid, "ink_source", StreakSourceList);
@@ -231,6 +261,9 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
         const std::shared_ptr<TBody>& lbody = pair.second;
 
         dataset_read_body(fid, name, body_map);
+        std::vector<double> fric = dataset_read_column(fid, "fric_" + name, lbody->size());
+        for (size_t i = 0; i < fric.size(); i++)
+            lbody->alist[i].fric = fric[i];
         BodyList.push_back(lbody);
     }
 
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index f96cfdb..bad7e1e 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -5,7 +5,9 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <algorithm>
 #include <map>
+#include <vector>
 
 
 static void dataset_write_list(hid_t fid, std::string name, const std::vector<TObj>& list)
@@ -48,6 +50,34 @@ static void dataset_write_list(hid_t fid, std::string name, const std::vector<TO
         h5_throw("H5Dclose", name);
 }
 
+// what the previous step leaves to the next one; nothing is written if there was no previous step
+static void dataset_write_column(hid_t fid, std::string name, const std::vector<double>& column)
+{
+    if (std::all_of(column.begin(), column.end(), [](double x) { return x == 0; }))
+        return;
+
+    hsize_t N = column.size();
+    hsize_t chunkdims = std::min<hsize_t>(512, N);
+    hid_t prop = H5Pcreate(H5P_DATASET_CREATE);
+    H5Pset_chunk(prop, 1, &chunkdims);
+    H5Pset_deflate(prop, 9);
+
+    hid_t h5s = H5Screate_simple(1, &N, &N);
+    if (h5s < 0)
+        h5_throw("H5Screate_simple", name);
+
+    hid_t h5d = H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s, H5P_DEFAULT, prop, H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dcreate", name);
+
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, column.data());
+    if (err < 0)
+        h5_throw("H5Dwrite", name);
+    err = H5Dclose(h5d);
+    if (err < 0)
+        h5_throw("H5Dclose", name);
+}
+
 static void dataset_write_body(hid_t fid, std::string name, std::string root_name, const TBody& body)
 {
     bool can_simplify_slip = true;
@@ -189,6 +219,12 @@ void Space::save_hdf(int64_t fid)
     h5a_write<std::string const&> (fid, "time_local", timestr);
 
     dataset_write_list(fid, "vort", VortexList);
+
+    std::vector<double> eps;
+    for (const TObj& obj: VortexList)
+        eps.push_back(obj._1_eps);
+    dataset_write_column(fid, "vort_1_eps", eps);
+
     dataset_write_list(fid, "heat", HeatList);
     dataset_write_list(fid, "ink", StreakList);
     dataset_write_list(fid, "ink_source", StreakSourceList);
@@ -214,6 +250,11 @@ void Space::save_hdf(int64_t fid)
         }
 
         dataset_write_body(fid, body_name.c_str(), root_name, *lbody);
+
+        std::vector<double> fric;
+        for (const TAtt& att: lbody->alist)
+            fric.push_back(att.fric);
+        dataset_write_column(fid, "fric_" + body_name, fric);
     }
 
     h5t_commit_all(fid);
-- 
2.43.0


From 74b8885cc839a1c49f30bf2daa6a964b627fa563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 11/30] fix: setting slip takes effect at once

---
 utils/vvflow/lua_tbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 21e610e..8ed99ff 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -20,6 +20,7 @@ int luavvd_setslip(lua_State *L) {
     for (auto& latt: body->alist) {
         latt.slip = val;
     }
+    body->doFillProperties();
     return 0;
 }
 
-- 
2.43.0


From 8053a9b6c70b2bd9dcf1184dfaae3e3c005f24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 12/30] fix: the step history is a valid file before the first
 step

A process killed before the first flush left stepdata_CAPTION.h5 without
its metadata, and starting again from the script failed to open it.
---
 libvvhd/src/MStepdata.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index a7ae8f3..0810414 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -147,6 +147,8 @@ void Stepdata::open(const char* fname)
 
         H5Gclose(body_h5g);
     }
+
+    flush(); // the file can be opened again from now on, whatever happens
 }
 
 Stepdata::~Stepdata()
-- 
2.43.0


From 5eff6766ace7b8789a2f4b83bea3b966052be974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 13/30] fix: percentile() of fewer than 50 nonzero values read
 before the array

---
 libvvhd/src/XField.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index f9af7cd..4349a01 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -116,7 +116,11 @@ float XField::percentile(float p) const
     auto it = std::copy_if(&map[0], &map[xres*yres], v.begin(), [](float x){return x!=0;});
     v.resize(std::distance(v.begin(),it));
 
-    size_t N = std::floor(v.size()*p);
+    if (v.empty()) {
+        return 0;
+    }
+
+    size_t N = std::max<size_t>(std::floor(v.size()*p), 1);
     std::partial_sort(v.begin(), v.begin()+N, v.end(), cmp);
     return v[N-1];
 }
-- 
2.43.0


From 8336cc6f333bd4ed87d6772967213e2581350507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 14/30] fix: vvplot reports what it could not read or write,
 and replaces the whole target

---
 utils/vvplot/gnuplotter.cpp | 77 +++++++++++++++++++++++++------------
 utils/vvplot/vvplot.cpp     | 20 ++++++----
 2 files changed, 64 insertions(+), 33 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index f982b05..022f3d2 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -13,6 +13,12 @@ Gnuplotter::Gnuplotter():
     files()
 {}
 
+static void throw_archive(struct archive *a, const std::string& what)
+{
+    const char* err = archive_error_string(a);
+    throw std::runtime_error(what + ": " + (err ? err : "unknown error"));
+}
+
 static void archive(
     struct archive *a,
     const std::string& name,
@@ -24,9 +30,13 @@ static void archive(
     archive_entry_set_size(e, data.size());
     archive_entry_set_filetype(e, AE_IFREG);
     archive_entry_set_perm(e, perm);
-    archive_write_header(a, e);
-    archive_write_data(a, data.c_str(), data.size());
+    int rc = archive_write_header(a, e);
     archive_entry_free(e);
+    if (rc != ARCHIVE_OK)
+        throw_archive(a, "Error writing '" + name + "'");
+    la_ssize_t size = archive_write_data(a, data.c_str(), data.size());
+    if (size < 0 || size_t(size) != data.size())
+        throw_archive(a, "Error writing '" + name + "'");
 }
 
 void Gnuplotter::save(const std::string& filename)
@@ -34,14 +44,17 @@ void Gnuplotter::save(const std::string& filename)
     struct archive *a = archive_write_new();
 
     archive_write_set_format_pax_restricted(a);
-    archive_write_open_filename(a, filename.c_str());
+    if (archive_write_open_filename(a, filename.c_str()) != ARCHIVE_OK)
+        throw_archive(a, "Error opening '" + filename + "'");
 
-    archive(a, "plot.gp", script.str(), 0755);
     for (auto& f: files) {
         archive(a, f.first, f.second);
     }
+    // The last member: an archive that was cut short has no script
+    archive(a, "plot.gp", script.str(), 0755);
 
-    archive_write_close(a);
+    if (archive_write_close(a) != ARCHIVE_OK)
+        throw_archive(a, "Error writing '" + filename + "'");
     archive_write_free(a);
 }
 
@@ -64,53 +77,68 @@ void Gnuplotter::load(const std::string& filename)
         int rc;
         struct archive_entry *entry;
         rc = archive_read_next_header(a, &entry);
-        if (rc == ARCHIVE_FATAL) {
-            std::string err = "Error reading '" + filename + "': ";
-            err += archive_error_string(a);
-            throw std::runtime_error(err);
-        } else if (rc == ARCHIVE_EOF) {
+        if (rc == ARCHIVE_EOF) {
             break;
+        } else if (rc < ARCHIVE_WARN) {
+            throw_archive(a, "Error reading '" + filename + "'");
         }
 
         std::string pathname = archive_entry_pathname(entry);
         size_t esize = archive_entry_size(entry);
-        char buf[esize];
+        std::string buf(esize, '\0');
 
-        size_t rsize = archive_read_data(a, buf, esize);
-        if (rsize < 0) {
-            std::string err = "Error reading '" + filename + "' (" + pathname + "): ";
-            err += archive_error_string(a);
-            throw std::runtime_error(err);
-        }
+        la_ssize_t rsize = archive_read_data(a, &buf[0], esize);
+        if (rsize < 0 || size_t(rsize) != esize)
+            throw_archive(a, "Error reading '" + filename + "' (" + pathname + ")");
 
         if (pathname == "plot.gp") {
-            script.write(buf, rsize);
+            script.write(buf.data(), buf.size());
         } else {
-            files[pathname] = std::string(buf, rsize);
+            files[pathname] = buf;
         }
     }
 
     archive_read_free(a);
+
+    if (script.str().empty())
+        throw std::runtime_error("Error reading '" + filename + "': no plot.gp");
+}
+
+static int memfile(const std::string& name, const std::string& content)
+{
+    int fd = syscall(SYS_memfd_create, name.c_str(), 0);
+    size_t pos = 0;
+    while (fd >= 0 && pos < content.size()) {
+        ssize_t ws = write(fd, content.data() + pos, content.size() - pos);
+        if (ws < 0 && errno == EINTR)
+            continue;
+        if (ws <= 0)
+            break;
+        pos += ws;
+    }
+    if (fd < 0 || pos < content.size())
+        throw std::runtime_error("Error storing '" + name + "': " + strerror(errno));
+    return fd;
 }
 
 void Gnuplotter::exec(const std::string& filename)
 {
     std::string script_str = script.str();
 
-    int fd = open(filename.c_str(), O_WRONLY|O_CREAT, 0644);
+    int fd = open(filename.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
     if (fd < 0) {
         std::string err = "Error opening '" + filename + "': ";
         err += strerror(errno);
         throw std::runtime_error(err);
     }
-    dup2(fd, 1);
+    if (dup2(fd, 1) < 0)
+        throw std::runtime_error(std::string("Error redirecting output: ") + strerror(errno));
 
     for (auto& f: files) {
         std::string name = f.first;
         std::string content = f.second;
 
-        int memfd = syscall(SYS_memfd_create, name.c_str(), 0);
-        size_t ws = write(memfd, content.data(), content.size());
+        int memfd = memfile(name, content);
 
         std::string old_str = strfmt("'%s'", name.c_str());
         std::string new_str = strfmt("'/dev/fd/%d'", memfd);
@@ -120,8 +148,7 @@ void Gnuplotter::exec(const std::string& filename)
         }
     }
 
-    int memfd = syscall(SYS_memfd_create, "plot.gp", 0);
-    size_t ws = write(memfd, script_str.data(), script_str.size());
+    int memfd = memfile("plot.gp", script_str);
 
     int rc = execlp("gnuplot", "gnuplot", strfmt("/dev/fd/%d", memfd).c_str(), NULL);
     if (rc < 0) {
diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index bc53b46..12e8b0f 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -83,6 +83,16 @@ namespace opt {
     int ofmt = ffmt::png;
 }
 
+static XField* load_field(const char* filename)
+{
+    std::stringstream fbuf;
+    std::ifstream file(filename, std::ios::binary);
+    fbuf << file.rdbuf();
+    if (!file || !fbuf)
+        throw std::runtime_error(std::string("Error reading '") + filename + "'");
+    return new XField(fbuf.str());
+}
+
 int main_hdf(int argc, char **argv)
 {
     Space S;
@@ -257,10 +267,7 @@ int main_hdf(int argc, char **argv)
         XField *field = nullptr;
 
         if (opt::load_field) {
-            std::stringstream fbuf;
-            std::ifstream file(opt::load_field, std::ios::binary);
-            fbuf << file.rdbuf();
-            field = new XField(fbuf.str());
+            field = load_field(opt::load_field);
         } else {
             XVelocity *ufield = new XVelocity(
                 S,
@@ -331,10 +338,7 @@ int main_hdf(int argc, char **argv)
         XField *field = nullptr;
 
         if (opt::load_field) {
-            std::stringstream fbuf;
-            std::ifstream file(opt::load_field, std::ios::binary);
-            fbuf << file.rdbuf();
-            field = new XField(fbuf.str());
+            field = load_field(opt::load_field);
         } else {
             XStreamfunction *sfield = new XStreamfunction(
                 S,
-- 
2.43.0


From 6039272827c67cd7486c0a5a558e12187bb4164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 15/30] fix: vvxtract swapped two counts and printed labels
 from freed memory

---
 utils/vvxtract/vvxtract.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 04fa51c..9ca7d36 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -103,20 +103,16 @@ int main(int argc, char **argv)
         printf("-- #S.body_list = %zd -- number of elements\n", long(S.BodyList.size()));
         printf("-- #S.vort_list = %zd\n", long(S.VortexList.size()));
         printf("-- #S.sink_list = %zd\n", long(S.SourceList.size()));
-        printf("-- #S.streak_source_list = %zd\n", long(S.StreakList.size()));
-        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_source_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakList.size()));
 
         for (shared_ptr<TBody>& lbody: S.BodyList)
         {
             const TBody& b = *lbody;
             printf("\n");
-            const char* blabel;
+            const std::string label = b.label.empty() ? S.get_body_name(&b) : b.label;
+            const char* blabel = label.c_str();
             printf("-- %s (%s)", S.get_body_name(&b).c_str(), b.label.c_str());
-            if (!b.label.empty()){
-                blabel = b.label.c_str();
-            } else {
-                blabel = S.get_body_name(&b).c_str();
-            }
             printf("\n");
             #define S2D(v) v.x, v.y
             #define S3D(v) v.r.x, v.r.y, v.o
@@ -150,13 +146,8 @@ int main(int argc, char **argv)
                 printf("%s.root = nil\n", blabel);
             } else {
                 shared_ptr<TBody> lroot = b.root_body.lock();
-                const char* rlabel;
-                if (!lroot->label.empty()){
-                    rlabel = lroot->label.c_str();
-                } else {
-                    rlabel = S.get_body_name(lroot.get()).c_str();
-                }
-                printf("%s.root = %s\n", blabel, rlabel);
+                const std::string rlabel = lroot->label.empty() ? S.get_body_name(lroot.get()) : lroot->label;
+                printf("%s.root = %s\n", blabel, rlabel.c_str());
             }
 
             printf("-- #%s = %zd -- number of segments\n", blabel, b.size());
-- 
2.43.0


From e9b3507b3627e05aeb287516ab69c28af289b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 16/30] fix: vvxtract reports a listing it could not read and
 output it could not write

---
 utils/vvxtract/vvxtract.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 9ca7d36..ba84ca4 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -41,6 +41,16 @@ namespace opt {
     char* const* argv;
 }
 
+// Success is only what has been written
+static int finish_output(const char* program)
+{
+    if (fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "%s: can't write output\n", program);
+        return 6;
+    }
+    return 0;
+}
+
 int main(int argc, char **argv)
 {
     opt::parse(argc, argv);
@@ -68,8 +78,13 @@ int main(int argc, char **argv)
             }
             return 0;
         };
-        H5Ovisit(fid, H5_INDEX_NAME, H5_ITER_NATIVE, h5o_iter, NULL);
-        return 0;
+        if (H5Ovisit(fid, H5_INDEX_NAME, H5_ITER_NATIVE, h5o_iter, NULL) < 0)
+        {
+            H5Eprint2(H5E_DEFAULT, stderr);
+            fprintf(stderr, "%s: can't list file '%s'\n", argv[0], opt::input);
+            return 5;
+        }
+        return finish_output(argv[0]);
     }
 
     if (opt::b_info) {
@@ -158,7 +173,7 @@ int main(int argc, char **argv)
             printf("-- %s.get_moi_cofm() = %lg\n", blabel, b.get_moi_cofm());
             printf("-- %s.get_moi_axis() = %lg\n", blabel, b.get_moi_axis());
         }
-        return 0;
+        return finish_output(argv[0]);
     }
 
     std::vector<dataset_t> datasets;
@@ -238,5 +253,5 @@ int main(int argc, char **argv)
         printf("\n");
     }
 
-    return 0;
+    return finish_output(argv[0]);
 }
-- 
2.43.0


From 4604244c5ccaf9c09a8fbac20213384862288e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 17/30] fix: vvplot does not plot part of its data when memory
 runs out

The streams that collect the script and the data caught the failed
allocation and went bad without a word.
---
 utils/vvplot/gnuplotter.hpp |  8 +++++++-
 utils/vvplot/optparse.cpp   |  1 +
 utils/vvplot/vvplot.cpp     | 30 +++++++++++++++---------------
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/utils/vvplot/gnuplotter.hpp b/utils/vvplot/gnuplotter.hpp
index df80b84..fe1408f 100644
--- a/utils/vvplot/gnuplotter.hpp
+++ b/utils/vvplot/gnuplotter.hpp
@@ -12,6 +12,12 @@
 #include <sstream>
 #include <map>
 
+// A stream to memory that does not lose data silently when memory runs out
+class memstream: public std::stringstream {
+public:
+    memstream() { exceptions(std::ios::badbit); }
+};
+
 class Gnuplotter {
 public:
     Gnuplotter();
@@ -41,7 +47,7 @@ public:
     }
 
 private:
-    std::stringstream script;
+    memstream script;
     std::map < std::string, std::string > files;
 };
 
diff --git a/utils/vvplot/optparse.cpp b/utils/vvplot/optparse.cpp
index b5ac195..0a81d4b 100644
--- a/utils/vvplot/optparse.cpp
+++ b/utils/vvplot/optparse.cpp
@@ -371,6 +371,7 @@ void opt::parse(int argc, char **argv) {
         int err = stat(opt::target, &statbuf);
         if (!err && S_ISDIR(statbuf.st_mode)) {
             std::stringstream fout_name;
+            fout_name.exceptions(std::ios::badbit);
 
             std::string target = opt::target;
             fout_name << target;
diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 12e8b0f..4e05e17 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -175,11 +175,11 @@ int main_hdf(int argc, char **argv)
         gp << strfmt("set label \"t = %lf\" at graph 0.05, 0.90 front", double(S.time)) << std::endl;
     }
 
-    std::stringstream plot_cmd;
+    memstream plot_cmd;
     #define DELIMITER (!plot_cmd.tellp()?"plot \\\n    ":", \\\n    ")
 
     if (opt::G) {
-        std::stringstream bin;
+        memstream bin;
         XVorticity vrt = {S,
             opt::rect.xmin, opt::rect.ymin,
             opt::mesh_hi.dxdy,
@@ -213,7 +213,7 @@ int main_hdf(int argc, char **argv)
     }
 
     if (opt::P) {
-        std::stringstream bin;
+        memstream bin;
         XPressure prs = {S,
             opt::rect.xmin, opt::rect.ymin,
             opt::mesh_hi.dxdy,
@@ -253,7 +253,7 @@ int main_hdf(int argc, char **argv)
         plot_cmd << " u 1:2:3";
         plot_cmd << " with image";
 
-        std::stringstream bin_isopressure;
+        memstream bin_isopressure;
         bin_isopressure << XIsoline(prs, opt::Pmin, opt::Pmax, (opt::Pmax - opt::Pmin)/33.);
         gp.add("isopressure", bin_isopressure.str());
 
@@ -285,7 +285,7 @@ int main_hdf(int argc, char **argv)
         }
 
         std::string field_name = "map_velocity_" + std::string(1, opt::U);
-        std::stringstream bin;
+        memstream bin;
         bin << *field;
         gp.add(field_name, bin.str());
 
@@ -312,7 +312,7 @@ int main_hdf(int argc, char **argv)
     }
 
     if (opt::V) {
-        std::stringstream bin;
+        memstream bin;
         for (auto& lobj: S.VortexList) {
             float f[3] = {float(lobj.r.x), float(lobj.r.y), float(lobj.g)};
             bin.write(reinterpret_cast<const char*>(f), sizeof(f));
@@ -354,7 +354,7 @@ int main_hdf(int argc, char **argv)
             field = sfield;
         }
 
-        std::stringstream bin_streamfunction;
+        memstream bin_streamfunction;
         bin_streamfunction << *field;
 
         gp.add("map_streamfunction", bin_streamfunction.str());
@@ -373,7 +373,7 @@ int main_hdf(int argc, char **argv)
             opt::Sstep = (opt::Smax - opt::Smin)/33.;
         }
 
-        std::stringstream bin_streamline;
+        memstream bin_streamline;
         bin_streamline << XIsoline(*field, opt::Smin, opt::Smax, opt::Sstep);
         gp.add("streamlines", bin_streamline.str());
 
@@ -397,7 +397,7 @@ int main_hdf(int argc, char **argv)
             plot_cmd << " with filledcurve lc rgb '#adadad' lw 2 fs solid border -1";
         }
 
-        std::stringstream bin;
+        memstream bin;
         for (const TAtt& latt: b.alist) {
             TVec p = latt.corner;
             float f[2] = {float(p.x), float(p.y)};
@@ -413,8 +413,8 @@ int main_hdf(int argc, char **argv)
     }
 
     if (opt::holder || opt::spring) {
-        std::stringstream body_holders;
-        std::stringstream body_springs;
+        memstream body_holders;
+        memstream body_springs;
         for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
             TVec p_h = lbody->holder.r;
             body_holders << p_h.x << " " << p_h.y;
@@ -459,7 +459,7 @@ int main_hdf(int argc, char **argv)
         tree.build();
 
         if (opt::ttree_bottom_nodes) {
-            std::stringstream bin_bottom_nodes;
+            memstream bin_bottom_nodes;
             for (TSortedNode* lbn: tree.getBottomNodes())
             {
                 float f[4] = {0.};
@@ -478,7 +478,7 @@ int main_hdf(int argc, char **argv)
         }
 
         if (opt::ttree_near_nodes) {
-            std::stringstream bin_near_nodes;
+            memstream bin_near_nodes;
             for (TSortedNode* lbn: tree.getBottomNodes())
             {
                 float f[4] = {0.};
@@ -500,7 +500,7 @@ int main_hdf(int argc, char **argv)
         }
 
         if (opt::ttree_find_node) {
-            std::stringstream bin_find_node;
+            memstream bin_find_node;
             for (int yj=0; yj<opt::mesh_lo.yres; yj+=4) {
                 for (int xi=0; xi<opt::mesh_lo.xres; xi+=4) {
                     TVec p = TVec(opt::rect.xmin, opt::rect.ymin) + opt::mesh_lo.dxdy*TVec(xi, yj);
@@ -557,7 +557,7 @@ int main_tar(int argc, char **argv)
             opt::Sstep = (opt::Smax - opt::Smin)/33.;
         }
 
-        std::stringstream bin_streamline;
+        memstream bin_streamline;
         bin_streamline << XIsoline(psi, opt::Smin, opt::Smax, opt::Sstep);
         gp.add("streamlines", bin_streamline.str());
     }
-- 
2.43.0


From e2b89f02d7f5f11f6c3da9222ecf224a411bd07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 18/30] fix: a sink weaker than 1 has no radius, and its
 velocity is unbounded

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index a8012f0..d6749a0 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -162,7 +162,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     for (const auto& src: S->SourceList)
     {
         TVec dr = p - src.r;
-        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*abs(src.g)) );
+        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*fabs(src.g)) );
     }
 
     res *= C_1_2PI;
-- 
2.43.0


From 095f8fc0f1891e2ca189bf43c0e87c2cbbf3e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 19/30] fix: vvplot keeps the data of bodies with one label
 apart

The data of a body is named after its label, so a second body of the same
label (or a label that is the name of other data) replaced the first.
---
 utils/vvplot/vvplot.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 4e05e17..afa2915 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -20,6 +20,8 @@
 // #include <fcntl.h> /* O_RDONLY */
 
 /* std::... */
+#include <algorithm>
+#include <iterator>
 #include <string>
 #include <vector>
 #include <limits>
@@ -93,6 +95,26 @@ static XField* load_field(const char* filename)
     return new XField(fbuf.str());
 }
 
+// A name for the data of a body: its label, unless other data have that name
+static std::string body_data_name(const Space& S, const TBody& b, Gnuplotter& gp)
+{
+    static const char* reserved[] = {
+        "plot.gp", "map_vorticity", "map_pressure", "isopressure",
+        "map_velocity_x", "map_velocity_y", "vortex_list",
+        "map_streamfunction", "streamlines", "body_holders", "body_springs",
+        "ttree_bottom_nodes", "ttree_near_nodes", "ttree_find_node"
+    };
+
+    std::string name = b.label.empty() ? S.get_body_name(&b) : b.label;
+    for (char& c: name) {
+        if (c == '\'' || c == '\n') c = '_'; // would end the name in the script
+    }
+    while (gp.get(name) || std::count(std::begin(reserved), std::end(reserved), name)) {
+        name += "_";
+    }
+    return name;
+}
+
 int main_hdf(int argc, char **argv)
 {
     Space S;
@@ -385,10 +407,7 @@ int main_hdf(int argc, char **argv)
 
     for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
         const TBody& b = *lbody;
-        std::string blabel = b.label;
-        if (blabel.empty()){
-            blabel = S.get_body_name(&b);
-        }
+        std::string blabel = body_data_name(S, b, gp);
 
         if (opt::B) {
             plot_cmd << DELIMITER;
-- 
2.43.0


From 5df871cd90034d8424a2cec689df511e51544183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 20/30] fix: a label beyond ASCII does not stop vvplot from
 writing its archive

---
 utils/vvplot/gnuplotter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index 022f3d2..24dcf33 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -32,7 +32,7 @@ static void archive(
     archive_entry_set_perm(e, perm);
     int rc = archive_write_header(a, e);
     archive_entry_free(e);
-    if (rc != ARCHIVE_OK)
+    if (rc < ARCHIVE_WARN) // a name beyond ASCII is a warning
         throw_archive(a, "Error writing '" + name + "'");
     la_ssize_t size = archive_write_data(a, data.c_str(), data.size());
     if (size < 0 || size_t(size) != data.size())
-- 
2.43.0


From c26b667dc2f3889b4129c7f74468748467e22972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 21/30] fix: a collision is not forgotten when another axis is
 elastic too

Every elastic axis that did not collide cleared the collision, so only the
last one could bounce; on the others the body pressed against its limit and
the flow stood still for ever.
---
 libvvhd/src/MConvectiveFast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index d6749a0..612862a 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -925,8 +925,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.x;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -942,8 +942,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.y;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -960,8 +960,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.o;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
-- 
2.43.0


From 58c39f63d4790519d8638a8bc4b721eaa0b834ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 22/30] fix: a body bounces with its restitution, whatever its
 spring does

The force of the spring was added to the impact twice, so that a spring
that pulls towards the limit drove the body on through it and the flow
stood still for ever.
---
 libvvhd/src/MConvectiveFast.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 612862a..8e8cef9 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -922,9 +922,10 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
         } else {
             fillHookeXEquation(eq_no, libody.get(), rightColOnly);
             if (*collision == &libody->force_holder.r.x) {
-                *matrix.getRightCol(eq_no) +=
+                double* hooke = matrix.getRightCol(eq_no);
+                *hooke +=
                     (1+libody->bounce)
-                    * libody->force_holder.r.x;
+                    * (libody->force_holder.r.x - *hooke);
                 *collision = nullptr;
             }
         }
@@ -939,9 +940,10 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
         } else {
             fillHookeYEquation(eq_no, libody.get(), rightColOnly);
             if (*collision == &libody->force_holder.r.y) {
-                *matrix.getRightCol(eq_no) +=
+                double* hooke = matrix.getRightCol(eq_no);
+                *hooke +=
                     (1+libody->bounce)
-                    * libody->force_holder.r.y;
+                    * (libody->force_holder.r.y - *hooke);
                 *collision = nullptr;
             }
         }
@@ -957,9 +959,10 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
         else {
             fillHookeOEquation(eq_no, libody.get(), rightColOnly);
             if (*collision == &libody->force_holder.o) {
-                *matrix.getRightCol(eq_no) +=
+                double* hooke = matrix.getRightCol(eq_no);
+                *hooke +=
                     (1+libody->bounce)
-                    * libody->force_holder.o;
+                    * (libody->force_holder.o - *hooke);
                 *collision = nullptr;
             }
         }
-- 
2.43.0


From e840b253d16b503aa49b8ff0f85f6c0a2ddc5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 23/30] fix: a body beyond its limit does not turn the time of
 a step back

---
 libvvhd/src/MFlowmove.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index bd4af5d..300158d 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -49,7 +49,8 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
             }
 
             if (dt_ < current_dt) {
-                current_dt = dt_;
+                // a body that is already beyond its limit must not turn the time back
+                current_dt = dt_ > 0 ? dt_ : 0;
                 *collision = kspring_[i];
             }
         }
-- 
2.43.0


From ef57d480877e29bc9d0b156a8ce8177ad9b9b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 24/30] fix: an attached body held rigidly in y stays on its
 holder when the root turns

The equation of the y speed took the arm from the body's own axis, the
holder (and the x equation) takes it from the holder.  A body on a spring
in x therefore drifted off its rigid holder in y.
---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 8e8cef9..c22c4eb 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -838,7 +838,7 @@ void MConvectiveFast::fillSpeedYEquation(unsigned eq_no, TBody* ibody, bool righ
     {
         *matrix.getCell(eq_no, &root_body->speed_slae.r.x) = 0;
         *matrix.getCell(eq_no, &root_body->speed_slae.r.y) = -1;
-        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = -(ibody->get_axis() - root_body->get_axis()).x;
+        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = -(ibody->holder.r - root_body->get_axis()).x;
     }
 }
 
-- 
2.43.0


From 60bf6c28eb17ed3fb4dd9e9b8de74690fc49713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:05 +0000
Subject: [PATCH 25/30] fix: a vortex without neighbours nor bodies does not
 become nan

---
 libvvhd/src/MEpsilonFast.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MEpsilonFast.cpp b/libvvhd/src/MEpsilonFast.cpp
index b23fd2f..ab65e1e 100644
--- a/libvvhd/src/MEpsilonFast.cpp
+++ b/libvvhd/src/MEpsilonFast.cpp
@@ -42,9 +42,11 @@ void MEpsilonFast::CalcEpsilonFast(bool merge)
             merge_criteria_sq = std::numeric_limits<double>::quiet_NaN();
         }
 
+        // без тел вихрь может остаться без соседей,
+        // а квадраты eps и 1/eps должны быть конечны и отличны от нуля
         double eps_restriction = nearestAtt ?
             nearestAtt->dl.abs()*(1.0/3.0)
-            : 0;
+            : 1e-100;
 
         for (TObj *lobj = lbnode->vRange.first; lobj < lbnode->vRange.last; lobj++)
         {
-- 
2.43.0


From 7d2db9bf91e6ab723395610097193f45490733ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:05 +0000
Subject: [PATCH 26/30] fix: the velocity map has the vorticity on the bodies,
 like all other maps

---
 libvvhd/headers/XVelocity.hpp | 2 ++
 libvvhd/src/XVelocity.cpp     | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libvvhd/headers/XVelocity.hpp b/libvvhd/headers/XVelocity.hpp
index c8ce968..cedac49 100644
--- a/libvvhd/headers/XVelocity.hpp
+++ b/libvvhd/headers/XVelocity.hpp
@@ -3,6 +3,7 @@
 #include "TSpace.hpp"
 #include "TSortedTree.hpp"
 #include "MConvectiveFast.hpp"
+#include "MFlowmove.hpp"
 #include "MEpsilonFast.hpp"
 #include "XField.hpp"
 
@@ -26,4 +27,5 @@ private:
     TSortedTree tree;
     MEpsilonFast eps;
     MConvectiveFast convective;
+    MFlowmove flowmove;
 };
diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 3672c62..b889690 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -18,7 +18,8 @@ XVelocity::XVelocity(
     dl(S.average_segment_length()),
     tree(&this->S, 8, dl*20, 0.1),
     eps(&this->S, &tree),
-    convective(&this->S, &tree)
+    convective(&this->S, &tree),
+    flowmove(&this->S)
 {}
 
 void XVelocity::evaluate()
@@ -47,6 +48,7 @@ void XVelocity::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    flowmove.vortex_shed();
     tree.build();
     eps.CalcEpsilonFast(false);
 
-- 
2.43.0


From 406a5cf0242f44712ee7eb2d8c84a0c8a936d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:05 +0000
Subject: [PATCH 27/30] fix: the moment of friction is about the axis of the
 body

---
 libvvhd/src/TSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index b06fb44..6a08e87 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -153,7 +153,7 @@ void Space::calc_forces()
             latt.Nu += latt.hsum * (re*pr / latt.dl.abs());
 
             lbody->friction.r -= latt.dl * (latt.fric * C_Nyu_Pi / latt.dl.abs());
-            lbody->friction.o -= (rotl(latt.r)* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
+            lbody->friction.o -= (rotl(latt.r - lbody->get_axis()) * latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
             lbody->nusselt += latt.hsum * (re*pr);
         }
 
-- 
2.43.0


From 8b9264ebf8dcc9f4589617d7749b37d0a9d5c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:01 +0000
Subject: [PATCH 28/30] fix: the cut of a sink to the right of the plot does
 not draw streamlines

---
 libvvhd/src/XStreamfunction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 71a5dc5..3d9dd4b 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -193,7 +193,9 @@ double XStreamfunction::streamfunction(const TSortedNode &node, TVec p, double*
     {
         tmp_2pi_psi_q += _2pi_psi_q(p-src.r, src.g);
 
-        if (p.x < src.r.x && src.r.x <= p.x+dxdy &&
+        // the cut of a source to the right of the field crosses all of it
+        const bool last = p.x > xmin + dxdy*(xres-1.5);
+        if (p.x < src.r.x && (src.r.x <= p.x+dxdy || last) &&
             p.y < src.r.y && src.r.y <= p.y+dxdy)
         {
             *psi_gap += src.g;
-- 
2.43.0


From 9c4b715bdf52e971f4d7a2553ec13acd60e65797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:15 +0000
Subject: [PATCH 29/30] fix: a vortex without radius acts on the bodies from
 the first step

---
 utils/vvflow/vvflow.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4e6a112..e630b64 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -17,6 +17,7 @@
 #include "MFlowmove.hpp"
 #include "elementary.h"
 
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <cstdio>
@@ -240,6 +241,11 @@ static int run_simulation(lua_State *L) {
         {
             dbg(tr.build());
 
+            // a vortex without radius would not act on the bodies
+            auto no_radius = [](const TObj& obj) { return obj.g && !obj._1_eps; };
+            if (std::any_of(S.VortexList.begin(), S.VortexList.end(), no_radius))
+                dbg(epsilon.CalcEpsilonFast(/*merge=*/false));
+
             // решаем слау
             if (collision != nullptr) {
                 convective.calc_circulation(&collision);
-- 
2.43.0


From 93e97c75961e164cc16b26db217cd346736f262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:50 +0000
Subject: [PATCH 30/30] fix: the velocity next to the wall of a turning body

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index c22c4eb..8160294 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -451,7 +451,7 @@ TVec MConvectiveFast::SegmentInfluence_linear_source(TVec p, const TAtt &seg, do
     //complex<double> i(0,1);
 
     //cerr << z2 << "\t" << z1 << endl;
-    zV = ( (q2-q1) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
+    zV = ( (q1-q2) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
     //cerr << zV << endl;
     return TVec(zV.real(), zV.imag());
 }
-- 
2.43.0

