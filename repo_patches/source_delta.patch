From cc82b23898e49d2894403afc8e61bead8ddbcfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 01/14] fix: Cartesian interpolation in the cell closing a
 descending circular axis

Axis::find_indices returns (n - 1, 0) for the cell that closes the circle
whatever the direction of the axis. With a descending axis the pair is then
sorted by decreasing longitude and the bilinear weights extrapolated over the
other side of the globe instead of interpolating between the two nodes.
---
 include/fes/tidal_model/cartesian.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index ae91dbe..3f43836 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -131,15 +131,22 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   int64_t j2;
   std::tie(i1, i2) = *lon_index;
   std::tie(j1, j2) = *lat_index;
-  const auto x1 = lon_(i1);
-  const auto x2 = lon_(i2);
+  auto x1 = lon_(i1);
+  auto x2 = detail::math::normalize_angle(lon_(i2), x1);
+  auto x = detail::math::normalize_angle(point.lon(), x1);
+  if (x > x2) {
+    // The indices returned for the cell closing a descending circle are not
+    // sorted by increasing longitude: the cell starts at i2.
+    std::swap(i1, i2);
+    x1 = lon_(i1);
+    x2 = detail::math::normalize_angle(lon_(i2), x1);
+    x = detail::math::normalize_angle(point.lon(), x1);
+  }
   const auto y1 = lat_(j1);
   const auto y2 = lat_(j2);
   auto n = int64_t{0};
 
-  auto wxy = detail::math::bilinear_weights(
-      detail::math::normalize_angle(point.lon(), x1), point.lat(), x1, y1,
-      detail::math::normalize_angle(x2, x1), y2);
+  auto wxy = detail::math::bilinear_weights(x, point.lat(), x1, y1, x2, y2);
 
   auto grid = detail::Grid<std::complex<T>>(
       nullptr, static_cast<size_t>(lon_.size()),
-- 
2.43.0


From 336c82b888e32992af5c926f8cdb822908cb4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 02/14] fix: NaN instead of zero when every node of the cell is
 masked

std::numeric_limits<std::complex<double>>::quiet_NaN() is zero, so a cell
without any defined node was interpolated as a null constituent.
---
 include/fes/detail/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index cadc215..1304f47 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -295,8 +295,11 @@ constexpr auto bilinear_interpolation(const T& wx1, const T& wx2, const T& wy1,
   add_sample(z12, wx1 * wy2);
   add_sample(z21, wx2 * wy1);
   add_sample(z22, wx2 * wy2);
+  // std::numeric_limits is not specialized for complex numbers: build the NaN
+  // from the underlying real type.
+  using real_t = decltype(std::abs(sum_w));
   return std::abs(sum_w) > 0 ? result / sum_w
-                             : std::numeric_limits<T>::quiet_NaN();
+                             : T(1) * std::numeric_limits<real_t>::quiet_NaN();
 }
 
 /// @brief Evaluates a polynomial using Horner's method.
-- 
2.43.0


From 69c258c82fd221abdd0fa632e5b928d2efa7b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 03/14] fix: keep the dynamic constituents of a tidal model in
 its serialized state

The list of dynamic constituents was dropped by getstate/setstate: a restored
model silently ignored them in the tide prediction.
---
 include/fes/detail/serialize.hpp      | 27 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  2 ++
 include/fes/tidal_model/lgp.hpp       |  2 ++
 3 files changed, 31 insertions(+)

diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 9671f1d..da5d51a 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <vector>
 
 #include "fes/detail/isviewstream.hpp"
 
@@ -52,6 +53,32 @@ inline auto read_string(detail::isviewstream& ss) -> fes::string_view {
   return ss.readview(read_data<size_t>(ss));
 }
 
+/// @brief Write a vector to a stringstream
+/// @tparam T The type of the items of the vector
+/// @param[in] ss The stringstream to write to
+/// @param[in] data The vector to write
+template <typename T>
+auto write_vector(std::stringstream& ss, const std::vector<T>& data) -> void {
+  write_data(ss, data.size());
+  for (const auto& item : data) {
+    write_data(ss, item);
+  }
+}
+
+/// @brief Read a vector from a stringstream
+/// @tparam T The type of the items of the vector
+/// @param[in] ss The stringstream to read from
+/// @return The vector read
+template <typename T>
+auto read_vector(detail::isviewstream& ss) -> std::vector<T> {
+  auto size = read_data<size_t>(ss);
+  auto data = std::vector<T>{};
+  for (size_t ix = 0; ix < size; ++ix) {
+    data.emplace_back(read_data<T>(ss));
+  }
+  return data;
+}
+
 /// @brief Write an Eigen matrix to a stringstream
 /// @tparam T The type of the matrix
 /// @tparam ROWS The number of rows in the matrix
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 3f43836..bb315a8 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -176,6 +176,7 @@ auto Cartesian<T>::getstate() const -> std::string {
   detail::serialize::write_string(ss, lat_.getstate());
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -193,6 +194,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f94361c..806f653 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -413,6 +413,7 @@ auto LGP<T, N>::getstate() const -> std::string {
   detail::serialize::write_data(ss, max_distance_);
   detail::serialize::write_matrix<int, Eigen::Dynamic, N * 3>(ss, codes_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -427,6 +428,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From ffaa53a9f234731bb0d26f0ed86dcfe5c96738cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 04/14] fix: code of the vertices of a LGP1 triangle

The code of the second vertex was read in the third column and the code of the
third one out of the bounds of the codes of the triangle.
---
 include/fes/tidal_model/lgp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 806f653..4af8428 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -368,14 +368,14 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
   const auto& codes = codes_.row(selected_triangle.index);
 
   // In the case of extrapolation, if the projected point is one of the vertices
-  // of the triangle, then we return values associated with this vertex. The
-  // LGP code of vertex 0 is at index 0, the code of vertex 1 is at index 2 and
-  // the code of vertex 3 is at index 4.
+  // of the triangle, then we return values associated with this vertex. There
+  // are N LGP codes per edge: the LGP code of vertex 0 is at index 0, the code
+  // of vertex 1 is at index N and the code of vertex 2 is at index 2N.
   auto vertex_id =
       selected_triangle.triangle.is_vertex(selected_triangle.point);
   if (vertex_id != -1) {
     for (const auto& item : this->data_) {
-      const auto value = item.second(codes(vertex_id << 1));
+      const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
     quality = Quality::kExtrapolated1;
-- 
2.43.0


From cfffa7c4b095f2ea077c2ab8711ddfd5e75d86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 05/14] fix: a LGP model restored from its state accepts new
 constituents

The expected size of the data sets was not restored by setstate, so
add_constituent refused every wave after unpickling.
---
 include/fes/tidal_model/lgp.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 4af8428..042f778 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -174,6 +174,10 @@ class LGP : public fes::AbstractTidalModel<T> {
   virtual auto calculate_beta(const double x, const double y) const
       -> Eigen::Matrix<double, N * 3, 1> = 0;
 
+  /// @brief Check the consistency between the codes and the mesh index and
+  /// determine the expected size of the data sets.
+  auto check_codes() -> void;
+
   /// @brief Set the state of the tidal model.
   ///
   /// @param[in] data The serialized tidal model.
@@ -310,6 +314,12 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
       index_(std::move(index)),
       max_distance_(max_distance),
       codes_(std::move(codes)) {
+  check_codes();
+}
+
+// /////////////////////////////////////////////////////////////////////////////
+template <typename T, int N>
+auto LGP<T, N>::check_codes() -> void {
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
@@ -426,6 +436,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
       mesh::Index::setstate(detail::serialize::read_string(ss)));
   this->max_distance_ = detail::serialize::read_data<double>(ss);
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
+  check_codes();
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
   this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
-- 
2.43.0


From 601b9589e21257e5a1bea920ac50851ac9c04f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 06/14] fix: reject the serialized states whose sections are
 inconsistent

A state holding a matrix of the wrong shape, a section longer than the buffer
or data that do not match the grid was accepted, and the memory out of the
bounds of the buffers was then read.
---
 include/fes/detail/isviewstream.hpp   | 4 ++--
 include/fes/detail/serialize.hpp      | 5 +++++
 include/fes/tidal_model/cartesian.hpp | 5 +++++
 include/fes/tidal_model/lgp.hpp       | 5 +++++
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/isviewstream.hpp b/include/fes/detail/isviewstream.hpp
index 6641b14..377ae08 100644
--- a/include/fes/detail/isviewstream.hpp
+++ b/include/fes/detail/isviewstream.hpp
@@ -85,10 +85,10 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   /// @return The string_view.
   auto readview(const std::streamsize count) -> string_view {
     auto avail = this->egptr() - this->gptr();
-    auto size = std::min(count, avail);
+    auto size = std::max<std::streamsize>(std::min(count, avail), 0);
     auto result = string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
-    if (avail < count) {
+    if (size != count) {
       setstate(std::ios_base::badbit | std::ios_base::failbit);
     }
     return result;
diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index da5d51a..9412419 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 
 #include "fes/detail/isviewstream.hpp"
@@ -103,6 +104,10 @@ template <typename T, int ROWS, int COLS>
 auto read_matrix(detail::isviewstream& ss) -> Eigen::Matrix<T, ROWS, COLS> {
   auto rows = read_data<Eigen::Index>(ss);
   auto cols = read_data<Eigen::Index>(ss);
+  if (rows < 0 || cols < 0 || (ROWS != Eigen::Dynamic && rows != ROWS) ||
+      (COLS != Eigen::Dynamic && cols != COLS)) {
+    throw std::invalid_argument("invalid matrix shape");
+  }
   auto data = Eigen::Matrix<T, ROWS, COLS>(rows, cols);
   ss.read(reinterpret_cast<char*>(data.data()), data.size() * sizeof(T));
   return data;
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index bb315a8..3f544e8 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -194,6 +194,11 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    for (const auto& item : model.data_) {
+      if (item.second.size() != model.lon_.size() * model.lat_.size()) {
+        throw std::invalid_argument("wave size does not match expected size");
+      }
+    }
     model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 042f778..fcd0fc8 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -439,6 +439,11 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   check_codes();
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  for (const auto& item : this->data_) {
+    if (item.second.size() != expected_data_size_) {
+      throw std::invalid_argument("wave size does not match expected size");
+    }
+  }
   this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
 }
 
-- 
2.43.0


From c6bc45054d22aba4cef32f5b9c80b6cbb1bba9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 07/14] fix: list the known constituents in the order of their
 identifiers

The wave table stores the waves in the order of constituents::known() and reads
them with the identifier as index: Sa1, Sta, Mm1, Mf1, A5, M0, Mm2 and Mf2 were
mistaken for one another (a model providing Sa1 was predicted as A5).
---
 src/library/constituent.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/constituent.cpp b/src/library/constituent.cpp
index ec5e528..30f1e47 100644
--- a/src/library/constituent.cpp
+++ b/src/library/constituent.cpp
@@ -37,9 +37,9 @@ auto known() -> std::vector<std::string> {
           wave::name::kMSN6, wave::name::k2MS6, wave::name::k2MK6,
           wave::name::k2SM6, wave::name::kMSK6, wave::name::kS6,
           wave::name::kM8,   wave::name::kMSf,  wave::name::kSsa,
-          wave::name::kSa,   wave::name::kA5,   wave::name::kSa1,
-          wave::name::kSta,  wave::name::kMm2,  wave::name::kMm1,
-          wave::name::kMf1,  wave::name::kMf2,  wave::name::kM0};
+          wave::name::kSa,   wave::name::kSa1,  wave::name::kSta,
+          wave::name::kMm1,  wave::name::kMf1,  wave::name::kA5,
+          wave::name::kM0,   wave::name::kMm2,  wave::name::kMf2};
 }
 
 inline auto iequals(const std::string& a, const std::string& b) -> bool {
-- 
2.43.0


From 50882e1ae40b18ab62751b64174b4e157c916165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 08/14] fix: initialize the result of tide_from_mapping

The contribution of each wave was added to an uninitialized matrix.
---
 src/library/wave/table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3c4536c..0103a64 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -417,7 +417,7 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         "wave must contain as many elements as the number of waves in the "
         "table");
   }
-  auto result = Eigen::MatrixXd(wave.cols(), wave.rows());
+  Eigen::MatrixXd result = Eigen::MatrixXd::Zero(wave.cols(), wave.rows());
   auto worker = [&](const int64_t start, const int64_t end) {
     // The wave properties of the object must be immutable for the provided
     // instance.
-- 
2.43.0


From 897d15efdcfd5cb518e2df70be32b8f450b8e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 09/14] fix: the predictions from a wave table leave the table
 unchanged

Table(*this) only duplicated the shared pointers: tide_from_tide_series and
compute_nodal_modulations, which are const, changed the nodal corrections of
the waves of the caller and the threads of tide_from_mapping raced on them.
---
 include/fes/wave/table.hpp | 18 ++++++++++++++++++
 src/library/wave/table.cpp | 14 ++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index 31ca1a8..9201e65 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -120,6 +120,24 @@ class Table {
   /// Build a table from a list of constituent identifiers
   explicit Table(const std::vector<Constituent>& waves);
 
+  /// Copy constructor. The waves are copied: the state of the waves of the new
+  /// table is independent from the state of the waves of the copied table.
+  Table(const Table& rhs);
+
+  /// Copy assignment operator
+  inline auto operator=(const Table& rhs) -> Table& {
+    return *this = Table(rhs);
+  }
+
+  /// Move constructor
+  Table(Table&&) noexcept = default;
+
+  /// Move assignment operator
+  auto operator=(Table&&) noexcept -> Table& = default;
+
+  /// Default destructor
+  ~Table() = default;
+
   /// Create a wave properties from its identifier
   /// @param[in] ident Wave identifier
   /// @return Wave properties
diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 0103a64..0bc2dc4 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -9,6 +9,7 @@
 #include <memory>
 #include <stdexcept>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "fes/detail/broadcast.hpp"
@@ -226,6 +227,19 @@ Table::Table(const std::vector<Constituent>& waves) {
   *this = Table(wave_names);
 }
 
+Table::Table(const Table& rhs)
+    : getter_(rhs.getter_), wave_index_(rhs.wave_index_) {
+  waves_.reserve(rhs.waves_.size());
+  for (const auto& item : rhs.waves_) {
+    auto wave = std::shared_ptr<Wave>();
+    if (item) {
+      wave = wave_factory(item->ident());
+      *wave = *item;
+    }
+    waves_.emplace_back(std::move(wave));
+  }
+}
+
 void Table::admittance() {
   // Arrays who contains the spline coefficients needed to compute MU2, NU2,
   // L2, T2 and Lambda2 by admittance.
-- 
2.43.0


From a878fbfb8eb94c3c468665025fc37c4465686860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 10/14] fix: division by zero in parallel_for when there is
 nothing to process

evaluate_tide crashed on empty vectors, and on any vector when the number of
CPUs is unknown (hardware_concurrency returns 0).
---
 include/fes/detail/thread.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e71add6..6958047 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -26,13 +26,18 @@ void parallel_for(const Lambda& callable, const size_t size,
   // If num_threads is 0, use all CPUs
   if (num_threads == 0) {
     num_threads = std::thread::hardware_concurrency();
+    // The number of CPUs may be unknown
+    if (num_threads == 0) {
+      num_threads = 1;
+    }
   }
 
   // Adjust num_threads to not exceed the size
   num_threads = std::min(num_threads, static_cast<size_t>(size));
 
-  // If num_threads is 1, no parallel computing code is used
-  if (num_threads == 1) {
+  // If num_threads is 1, or if there is nothing to process, no parallel
+  // computing code is used
+  if (num_threads <= 1) {
     callable(0, size);
     return;
   }
-- 
2.43.0


From 12452f0c4ab5568295ad4727534dab160fc5c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 11/14] fix: data race on the exception shared by the threads
 of parallel_for

---
 include/fes/detail/thread.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index 6958047..353d8e9 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -5,6 +5,7 @@
 /// @file include/fes/detail/thread.hpp
 /// @brief Parallelization
 #pragma once
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -45,6 +46,7 @@ void parallel_for(const Lambda& callable, const size_t size,
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads;
   std::exception_ptr exception = nullptr;
+  std::mutex mutex;
 
   // Access index to the vectors required for calculation
   size_t start = 0;
@@ -55,10 +57,11 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception]() {
+    threads.emplace_back([&callable, start, end, &exception, &mutex]() {
       try {
         callable(start, end);
       } catch (...) {
+        std::lock_guard<std::mutex> lock(mutex);
         exception = std::current_exception();
       }
     });
-- 
2.43.0


From 858218b4f4f156313863cb3dcade2c9281b2be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 12/14] fix: sign of the nodal phase correction of 2SM2

---
 include/fes/wave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 752f026..81a40c3 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -918,7 +918,7 @@ class Eta2 : public Wave {
 class _2SM2 : public Wave {
  public:
   constexpr _2SM2()
-      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0,
+      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0,
              &angle::Astronomic::f_m2) {}
 };
 
-- 
2.43.0


From 6b601ec7f14c35a25af6e8211459206f5261effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 13/14] fix: recompute the angles of the accelerator when the
 leap seconds change

---
 include/fes/abstract_tidal_model.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 6301d88..a2ada56 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -6,6 +6,7 @@
 /// @brief Abstract tidal model.
 #pragma once
 #include <complex>
+#include <cstdint>
 #include <map>
 #include <string>
 #include <utility>
@@ -103,8 +104,10 @@ class Accelerator {
   /// @return The astronomic angle corresponding to the given UTC time.
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
-    if (std::abs(epoch - angle_.first) > time_tolerance_) {
+    if (std::abs(epoch - angle_.first) > time_tolerance_ ||
+        leap_seconds != leap_seconds_) {
       angle_.first = epoch;
+      leap_seconds_ = leap_seconds;
       angle_.second.update(epoch, leap_seconds);
     }
     return angle_.second;
@@ -118,6 +121,10 @@ class Accelerator {
   /// @brief The last angle used to evaluate the tidal constituents.
   std::pair<double, angle::Astronomic> angle_;
 
+  /// @brief Number of leap seconds used to calculate the current astronomical
+  /// angles.
+  uint16_t leap_seconds_{0};
+
   /// @brief The tidal constituent values interpolated at the last point.
   ConstituentValues values_;
 };
-- 
2.43.0


From 2b83e04b8f139beeb6e2a15bc9f3155d543645d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 14/14] fix: reject the serialized grids whose size is negative
 or overflows

The number of values of a grid of 4611686018427387907 by 4 positions was
computed as 12: such a state was accepted and the memory out of the bounds of
the buffers was then read.
---
 include/fes/tidal_model/cartesian.hpp | 4 ++++
 src/library/axis.cpp                  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 3f544e8..04ae643 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -189,6 +189,10 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     auto lon = Axis::setstate(detail::serialize::read_string(ss));
     auto lat = Axis::setstate(detail::serialize::read_string(ss));
     auto tide_type = detail::serialize::read_data<TideType>(ss);
+    if (lat.size() != 0 &&
+        lon.size() > std::numeric_limits<int64_t>::max() / lat.size()) {
+      throw std::invalid_argument("invalid grid size");
+    }
     auto model =
         Cartesian<T>(std::move(lon), std::move(lat), tide_type, row_major);
     model.data_ =
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index fffcd8f..d96c4e8 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -157,6 +157,9 @@ auto Axis::setstate(const string_view& data) -> Axis {
     auto start = detail::serialize::read_data<double>(ss);
     auto size = detail::serialize::read_data<int64_t>(ss);
     auto step = detail::serialize::read_data<double>(ss);
+    if (size < 0) {
+      throw std::invalid_argument("invalid axis state");
+    }
     return Axis(is_circular, is_ascending, start, size, step);
   } catch (const std::ios_base::failure&) {
     throw std::invalid_argument("invalid axis state");
-- 
2.43.0

