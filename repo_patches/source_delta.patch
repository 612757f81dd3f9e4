From 9b48a9729c5a655b3d475de7cebf5b80d649fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 01/29] fix: converting rich line assignments replace the
 cached lengths and azimuths instead of appending

---
 .../include/geometry/rich_type/eager_rich_line.hpp        | 8 ++++----
 src/library/include/geometry/rich_type/rich_line_data.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 96f2bf4..e53e2af 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -204,10 +204,10 @@ namespace map_matching_2::geometry {
             rich_line_data_base_type::_azimuth = other.azimuth();
             rich_line_data_base_type::_directions = other.directions();
             rich_line_data_base_type::_absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
-                    std::back_inserter(rich_line_data_base_type::_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
-                    std::back_inserter(rich_line_data_base_type::_azimuths));
+            rich_line_data_base_type::_lengths.assign(
+                    std::cbegin(other.lengths()), std::cend(other.lengths()));
+            rich_line_data_base_type::_azimuths.assign(
+                    std::cbegin(other.azimuths()), std::cend(other.azimuths()));
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 5ece7a1..1985d70 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -117,8 +117,8 @@ namespace map_matching_2::geometry {
             _azimuth = other.azimuth();
             _directions = other.directions();
             _absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()), std::back_inserter(_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()), std::back_inserter(_azimuths));
+            _lengths.assign(std::cbegin(other.lengths()), std::cend(other.lengths()));
+            _azimuths.assign(std::cbegin(other.azimuths()), std::cend(other.azimuths()));
             return *this;
         }
 
-- 
2.43.0


From 230960ef8d0b940a487a4a2cb7afcf9f4d29e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 02/29] fix: assigning a plain line or segment to a lazy or
 eager one drops the cached values of the old geometry

---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp | 9 +++++----
 .../include/geometry/rich_type/eager_rich_line.hpp       | 1 +
 .../include/geometry/rich_type/eager_rich_segment.hpp    | 1 +
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp  | 1 +
 .../include/geometry/rich_type/lazy_rich_line.hpp        | 1 +
 .../include/geometry/rich_type/lazy_rich_segment.hpp     | 1 +
 .../include/geometry/rich_type/rich_segment_data.hpp     | 5 +++++
 7 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 8747488..df09abd 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -130,6 +130,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         eager_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -143,10 +144,10 @@ namespace map_matching_2::geometry {
             multi_rich_line_data_base_type::_azimuth = other.azimuth();
             multi_rich_line_data_base_type::_directions = other.directions();
             multi_rich_line_data_base_type::_absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_azimuths));
+            multi_rich_line_data_base_type::_lengths.assign(
+                    std::cbegin(other.lengths()), std::cend(other.lengths()));
+            multi_rich_line_data_base_type::_azimuths.assign(
+                    std::cbegin(other.azimuths()), std::cend(other.azimuths()));
             multi_rich_line_base_type::operator=(other);
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index e53e2af..c0c35d8 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -193,6 +193,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         eager_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             rich_line_data_base_type::_compute(*this);
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/eager_rich_segment.hpp b/src/library/include/geometry/rich_type/eager_rich_segment.hpp
index c757eba..1df1fad 100644
--- a/src/library/include/geometry/rich_type/eager_rich_segment.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_segment.hpp
@@ -115,6 +115,7 @@ namespace map_matching_2::geometry {
         template<typename SegmentT>
         constexpr eager_rich_segment &operator=(const rich_segment<SegmentT> &other) {
             rich_segment_base_type::operator=(other);
+            rich_segment_data_base_type::_invalidate();
             rich_segment_data_base_type::_compute(*this);
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index e30ba5e..1cfc9c5 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -113,6 +113,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         constexpr lazy_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b60a459..131d5c9 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -162,6 +162,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         constexpr lazy_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_segment.hpp b/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
index f2b2114..06f32d2 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
@@ -107,6 +107,7 @@ namespace map_matching_2::geometry {
         template<typename SegmentT>
         constexpr lazy_rich_segment &operator=(const rich_segment<SegmentT> &other) {
             rich_segment_base_type::operator=(other);
+            rich_segment_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/rich_segment_data.hpp b/src/library/include/geometry/rich_type/rich_segment_data.hpp
index e9e8809..d29f20b 100644
--- a/src/library/include/geometry/rich_type/rich_segment_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_segment_data.hpp
@@ -91,6 +91,11 @@ namespace map_matching_2::geometry {
         constexpr rich_segment_data(length_type length, angle_type azimuth)
             : _length{length}, _azimuth{azimuth} {}
 
+        constexpr void _invalidate() {
+            _length = not_initialized<length_type>;
+            _azimuth = not_initialized<angle_type>;
+        }
+
         [[nodiscard]] constexpr bool _equals_points(const is_rich_segment auto &rich_segment) const {
             return geometry::equals_points(rich_segment.first(), rich_segment.second());
         }
-- 
2.43.0


From 367416ba46fec95e589932faea1e17157b66266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 03/29] fix: direction access of lazy rich lines does not throw
 for valid positions

---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 1985d70..2b284ef 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -437,6 +437,7 @@ namespace map_matching_2::geometry {
             if (pos + 1 < _azimuths.size()) {
                 _initialize_azimuth(rich_line, pos);
                 _initialize_azimuth(rich_line, pos + 1);
+                return;
             }
 
             throw std::out_of_range(std::format(
-- 
2.43.0


From d533a9d60fabe5019d5e867cec31fdb17b4ec875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 04/29] fix: sub lines reuse whole line values only when they
 cover the whole line

---
 .../geometry/rich_type/rich_line_data.hpp        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 2b284ef..75b83b8 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -477,10 +477,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to}
                     : length_container_type{},
@@ -499,10 +499,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{allocator};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to, allocator}
                     : length_container_type{allocator},
-- 
2.43.0


From 2f4ec9276a46464c75d3a2c99ff7a2956b0f5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 05/29] fix: erasing the last point of a rich line refreshes
 its azimuth

---
 src/library/include/geometry/rich_type/eager_rich_line.hpp | 2 +-
 src/library/include/geometry/rich_type/lazy_rich_line.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index c0c35d8..dc3ed70 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -317,7 +317,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (rebuild) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_rebuild(*this, true, azimuth, true);
             }
         }
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index 131d5c9..eb699bc 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -307,7 +307,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (invalidate) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_invalidate(true, azimuth, true, false, false);
             }
         }
-- 
2.43.0


From 9fe5a180524829d59cce991b89e781dcc20cff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 06/29] fix: merging lines into a lazy or eager multi line
 refreshes its cached values

---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp  | 8 ++++++++
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index df09abd..617ea51 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -162,6 +162,14 @@ namespace map_matching_2::geometry {
 
         constexpr ~eager_multi_rich_line() = default;
 
+        template<is_rich_line RichLineT>
+        eager_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::template merge<RichLineT>(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            multi_rich_line_data_base_type::_compute(*this);
+            return *this;
+        }
+
         [[nodiscard]] constexpr bool has_length() const {
             return multi_rich_line_data_base_type::has_length();
         }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index 1cfc9c5..741db93 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -137,6 +137,13 @@ namespace map_matching_2::geometry {
 
         constexpr ~lazy_multi_rich_line() = default;
 
+        template<is_rich_line RichLineT>
+        lazy_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::template merge<RichLineT>(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            return *this;
+        }
+
         [[nodiscard]] bool has_length() const {
             multi_rich_line_data_base_type::_compute_length(*this);
             return multi_rich_line_data_base_type::has_length();
-- 
2.43.0


From 2e02992195c24b9fcb6ee777a55b63b451fc1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 07/29] fix: joining lazy or eager routes drops the cached
 values of the unjoined ones

---
 src/library/include/geometry/network/route/eager_route.hpp | 6 +++++-
 src/library/include/geometry/network/route/lazy_route.hpp  | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index 1cd7fc5..2094f0b 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -161,7 +161,11 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = eager_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            a._compute(a);
+            b._invalidate();
+            b._compute(b);
         }
 
     };
diff --git a/src/library/include/geometry/network/route/lazy_route.hpp b/src/library/include/geometry/network/route/lazy_route.hpp
index ff585e4..5a4040a 100644
--- a/src/library/include/geometry/network/route/lazy_route.hpp
+++ b/src/library/include/geometry/network/route/lazy_route.hpp
@@ -163,7 +163,9 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = lazy_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            b._invalidate();
         }
 
     };
-- 
2.43.0


From 9ea57697698524c809c137379e6a27d9bb81325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 08/29] fix: a memory-mapped storage finds its objects again
 after it was trimmed and reopened

---
 .../include/io/memory_mapped/storage/graph_storage.hpp     | 7 +++++++
 .../io/memory_mapped/storage/index_build_storage.hpp       | 7 +++++++
 .../include/io/memory_mapped/storage/index_storage.hpp     | 7 +++++++
 .../io/memory_mapped/storage/osm_handler_storage.hpp       | 7 +++++++
 .../include/io/memory_mapped/storage/tag_storage.hpp       | 7 +++++++
 5 files changed, 35 insertions(+)

diff --git a/src/library/include/io/memory_mapped/storage/graph_storage.hpp b/src/library/include/io/memory_mapped/storage/graph_storage.hpp
index b19858b..6914011 100644
--- a/src/library/include/io/memory_mapped/storage/graph_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/graph_storage.hpp
@@ -312,7 +312,14 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         void shrink_to_fit(bool reopen = true) {
+            _allocator.reset();
+
             _container.shrink_to_fit(reopen);
+
+            if (reopen) {
+                _prepare_allocator();
+                _open();
+            }
         }
 
         [[nodiscard]] constexpr const allocation_counter_type &allocation_counter() const {
diff --git a/src/library/include/io/memory_mapped/storage/index_build_storage.hpp b/src/library/include/io/memory_mapped/storage/index_build_storage.hpp
index ce2cfce..c210dd5 100644
--- a/src/library/include/io/memory_mapped/storage/index_build_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/index_build_storage.hpp
@@ -305,7 +305,14 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         void shrink_to_fit(bool reopen = true) {
+            _allocator.reset();
+
             _container.shrink_to_fit(reopen);
+
+            if (reopen) {
+                _prepare_allocator();
+                _open();
+            }
         }
 
         [[nodiscard]] constexpr const allocation_counter_type &allocation_counter() const {
diff --git a/src/library/include/io/memory_mapped/storage/index_storage.hpp b/src/library/include/io/memory_mapped/storage/index_storage.hpp
index 94a39bf..ba1390a 100644
--- a/src/library/include/io/memory_mapped/storage/index_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/index_storage.hpp
@@ -309,7 +309,14 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         void shrink_to_fit(bool reopen = true) {
+            _allocator.reset();
+
             _container.shrink_to_fit(reopen);
+
+            if (reopen) {
+                _prepare_allocator();
+                _open();
+            }
         }
 
         template<typename Range>
diff --git a/src/library/include/io/memory_mapped/storage/osm_handler_storage.hpp b/src/library/include/io/memory_mapped/storage/osm_handler_storage.hpp
index 9ebcbc8..26e7e72 100644
--- a/src/library/include/io/memory_mapped/storage/osm_handler_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/osm_handler_storage.hpp
@@ -323,7 +323,14 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         void shrink_to_fit(bool reopen = true) {
+            _allocator.reset();
+
             _container.shrink_to_fit(reopen);
+
+            if (reopen) {
+                _prepare_allocator();
+                _open();
+            }
         }
 
         [[nodiscard]] constexpr const allocation_counter_type &allocation_counter() const {
diff --git a/src/library/include/io/memory_mapped/storage/tag_storage.hpp b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
index a58f05b..6ad4646 100644
--- a/src/library/include/io/memory_mapped/storage/tag_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
@@ -566,7 +566,14 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         void shrink_to_fit(bool reopen = true) {
+            _allocator.reset();
+
             _container.shrink_to_fit(reopen);
+
+            if (reopen) {
+                _prepare_allocator();
+                _open();
+            }
         }
 
         [[nodiscard]] constexpr const allocation_counter_type &allocation_counter() const {
-- 
2.43.0


From 3183437b6ee98b4377a491694f1d3505c89fb1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 09/29] fix: assigning over a memory-mapped storage closes the
 old one as it was asked to

---
 .../io/memory_mapped/storage/base_storage.hpp |  1 +
 .../memory_mapped/storage/graph_storage.hpp   | 19 ++++++++++++-------
 .../storage/index_build_storage.hpp           | 19 ++++++++++++-------
 .../memory_mapped/storage/index_storage.hpp   | 19 ++++++++++++-------
 .../storage/osm_handler_storage.hpp           | 19 ++++++++++++-------
 .../io/memory_mapped/storage/tag_storage.hpp  | 19 ++++++++++++-------
 6 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/src/library/include/io/memory_mapped/storage/base_storage.hpp b/src/library/include/io/memory_mapped/storage/base_storage.hpp
index f9abfec..fe01f31 100644
--- a/src/library/include/io/memory_mapped/storage/base_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/base_storage.hpp
@@ -106,6 +106,7 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         constexpr mmap_base_container &operator=(mmap_base_container &&other) noexcept {
             if (this != &other) {
+                close();
                 _storage = std::move(other._storage);
                 other._storage = nullptr;
             }
diff --git a/src/library/include/io/memory_mapped/storage/graph_storage.hpp b/src/library/include/io/memory_mapped/storage/graph_storage.hpp
index 6914011..7eb945f 100644
--- a/src/library/include/io/memory_mapped/storage/graph_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/graph_storage.hpp
@@ -241,6 +241,7 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         constexpr graph_storage &operator=(graph_storage &&other) noexcept {
             if (this != &other) {
+                _close();
                 base_type::operator=(std::move(other));
                 _container = std::move(other._container);
                 _open_or_create = std::move(other._open_or_create);
@@ -257,13 +258,7 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         ~graph_storage() {
-            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
-                shrink_to_fit(false);
-            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
-                _container.destroy();
-            } else {
-                _container.close();
-            }
+            _close();
         }
 
         [[nodiscard]] std::size_t max_retries() const {
@@ -370,6 +365,16 @@ namespace map_matching_2::io::memory_mapped::storage {
         graph_type *_graph{nullptr};
         vertex_index_map_type *_vertex_index_map{nullptr};
 
+        void _close() {
+            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
+                shrink_to_fit(false);
+            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
+                _container.destroy();
+            } else {
+                _container.close();
+            }
+        }
+
         void _prepare_allocator() {
             if constexpr (io::allocator::is_counting_interprocess_allocator<allocator_type>) {
                 if (not _allocation_counter) {
diff --git a/src/library/include/io/memory_mapped/storage/index_build_storage.hpp b/src/library/include/io/memory_mapped/storage/index_build_storage.hpp
index c210dd5..d473187 100644
--- a/src/library/include/io/memory_mapped/storage/index_build_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/index_build_storage.hpp
@@ -234,6 +234,7 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         constexpr index_build_storage &operator=(index_build_storage &&other) noexcept {
             if (this != &other) {
+                _close();
                 base_type::operator=(std::move(other));
                 _container = std::move(other._container);
                 _open_or_create = std::move(other._open_or_create);
@@ -250,13 +251,7 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         ~index_build_storage() {
-            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
-                shrink_to_fit(false);
-            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
-                _container.destroy();
-            } else {
-                _container.close();
-            }
+            _close();
         }
 
         [[nodiscard]] std::size_t max_retries() const {
@@ -363,6 +358,16 @@ namespace map_matching_2::io::memory_mapped::storage {
         points_container_type *_points{nullptr};
         segments_container_type *_segments{nullptr};
 
+        void _close() {
+            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
+                shrink_to_fit(false);
+            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
+                _container.destroy();
+            } else {
+                _container.close();
+            }
+        }
+
         void _prepare_allocator() {
             if constexpr (io::allocator::is_counting_interprocess_allocator<allocator_type>) {
                 if (not _allocation_counter) {
diff --git a/src/library/include/io/memory_mapped/storage/index_storage.hpp b/src/library/include/io/memory_mapped/storage/index_storage.hpp
index ba1390a..91382cc 100644
--- a/src/library/include/io/memory_mapped/storage/index_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/index_storage.hpp
@@ -237,6 +237,7 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         constexpr index_storage &operator=(index_storage &&other) noexcept {
             if (this != &other) {
+                _close();
                 base_type::operator=(std::move(other));
                 _container = std::move(other._container);
                 _open_or_create = std::move(other._open_or_create);
@@ -253,13 +254,7 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         ~index_storage() {
-            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
-                shrink_to_fit(false);
-            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
-                _container.destroy();
-            } else {
-                _container.close();
-            }
+            _close();
         }
 
         [[nodiscard]] std::size_t max_retries() const {
@@ -377,6 +372,16 @@ namespace map_matching_2::io::memory_mapped::storage {
         rtree_points_type *_points_index{nullptr};
         rtree_segments_type *_segments_index{nullptr};
 
+        void _close() {
+            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
+                shrink_to_fit(false);
+            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
+                _container.destroy();
+            } else {
+                _container.close();
+            }
+        }
+
         void _prepare_allocator() {
             if constexpr (io::allocator::is_counting_interprocess_allocator<allocator_type>) {
                 if (not _allocation_counter) {
diff --git a/src/library/include/io/memory_mapped/storage/osm_handler_storage.hpp b/src/library/include/io/memory_mapped/storage/osm_handler_storage.hpp
index 26e7e72..03644ed 100644
--- a/src/library/include/io/memory_mapped/storage/osm_handler_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/osm_handler_storage.hpp
@@ -260,6 +260,7 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         constexpr osm_handler_storage &operator=(osm_handler_storage &&other) noexcept {
             if (this != &other) {
+                _close();
                 base_type::operator=(std::move(other));
                 _container = std::move(other._container);
                 _open_or_create = std::move(other._open_or_create);
@@ -274,13 +275,7 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         ~osm_handler_storage() {
-            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
-                shrink_to_fit(false);
-            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
-                _container.destroy();
-            } else {
-                _container.close();
-            }
+            _close();
         }
 
         [[nodiscard]] std::size_t max_retries() const {
@@ -368,6 +363,16 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         vertex_container_type *_vertices{nullptr};
 
+        void _close() {
+            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
+                shrink_to_fit(false);
+            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
+                _container.destroy();
+            } else {
+                _container.close();
+            }
+        }
+
         void _prepare_allocator() {
             if constexpr (io::allocator::is_counting_interprocess_allocator<allocator_type>) {
                 if (not _allocation_counter) {
diff --git a/src/library/include/io/memory_mapped/storage/tag_storage.hpp b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
index 6ad4646..5341e38 100644
--- a/src/library/include/io/memory_mapped/storage/tag_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
@@ -489,6 +489,7 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         constexpr tag_storage &operator=(tag_storage &&other) noexcept {
             if (this != &other) {
+                _close();
                 base_type::operator=(std::move(other));
                 _container = std::move(other._container);
                 _open_or_create = std::move(other._open_or_create);
@@ -521,13 +522,7 @@ namespace map_matching_2::io::memory_mapped::storage {
         }
 
         ~tag_storage() {
-            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
-                shrink_to_fit(false);
-            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
-                _container.destroy();
-            } else {
-                _container.close();
-            }
+            _close();
         }
 
         [[nodiscard]] std::size_t max_retries() const {
@@ -703,6 +698,16 @@ namespace map_matching_2::io::memory_mapped::storage {
         tag_vector_type *_empty_tags{nullptr};
         bool *_finalized{nullptr};
 
+        void _close() {
+            if (_shrink_on_close == SHRINK_ON_CLOSE and _destroy_on_close == DO_NOT_DESTROY_ON_CLOSE) {
+                shrink_to_fit(false);
+            } else if (_destroy_on_close == DESTROY_ON_CLOSE) {
+                _container.destroy();
+            } else {
+                _container.close();
+            }
+        }
+
         void _prepare_allocator() {
             if constexpr (io::allocator::is_counting_interprocess_allocator<allocator_type>) {
                 if (not _allocation_counter) {
-- 
2.43.0


From df4f07331599eaec1858f23c268288fd97d5eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 10/29] fix: dropping and growing an index storage forgets the
 indices of the dropped mapping

---
 .../include/io/memory_mapped/storage/index_storage.hpp       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/include/io/memory_mapped/storage/index_storage.hpp b/src/library/include/io/memory_mapped/storage/index_storage.hpp
index 91382cc..794957d 100644
--- a/src/library/include/io/memory_mapped/storage/index_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/index_storage.hpp
@@ -398,7 +398,10 @@ namespace map_matching_2::io::memory_mapped::storage {
             }
         }
 
-        void _create() {}
+        void _create() {
+            _points_index = nullptr;
+            _segments_index = nullptr;
+        }
 
         void _open() {
             _points_index = &_container.storage().template find<points_index_wrapper>
-- 
2.43.0


From 293886dfd69b11a863296f1e9205fcbdf8a07e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 11/29] fix: tags added while the tag storage is full are
 stored in the enlarged storage

---
 src/library/include/io/helper/tag_helper.hpp | 104 +++++++------------
 1 file changed, 39 insertions(+), 65 deletions(-)

diff --git a/src/library/include/io/helper/tag_helper.hpp b/src/library/include/io/helper/tag_helper.hpp
index 41a719a..9b8f815 100644
--- a/src/library/include/io/helper/tag_helper.hpp
+++ b/src/library/include/io/helper/tag_helper.hpp
@@ -264,92 +264,66 @@ namespace map_matching_2::io::helper {
         }
 
         [[nodiscard]] tag_vector_type tags(const osmium::TagList &tag_list) {
-            const auto &_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tag_list.size());
-                for (const auto &tag : tag_list) {
-                    tags_container.emplace_back(id(tag.key(), tag.value(), false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _tags();
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tag_list.size());
+            for (const auto &tag : tag_list) {
+                tags_container.emplace_back(id(tag.key(), tag.value(), false));
             }
+            return tags_container;
         }
 
         template<typename TagsT>
         [[nodiscard]] tag_vector_type copy_tags(const TagsT &tags) {
-            const auto &_copy_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _copy_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _copy_tags();
-            }
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tags.size());
+            std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
+            return tags_container;
         }
 
         template<typename TagsT, typename TagHelperT>
         [[nodiscard]] tag_vector_type clone_tags(const TagsT &tags, const TagHelperT &other) {
-            const auto &_clone_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                for (const auto &tag_id : tags) {
-                    // clones tag data from other tag_storage to this tag_storage
-                    auto tag = other.tag(tag_id);
-                    tags_container.emplace_back(id(tag.first, tag.second, false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _clone_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _clone_tags();
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tags.size());
+            for (const auto &tag_id : tags) {
+                // clones tag data from other tag_storage to this tag_storage
+                auto tag = other.tag(tag_id);
+                tags_container.emplace_back(id(tag.first, tag.second, false));
             }
+            return tags_container;
         }
 
         void set_map_tags(const std::uint64_t id, tag_vector_type &&tags, MAP_TAGS map_tag) {
-            const auto &_set_map_tags = [&]() {
-                auto &map = get_map(map_tag);
-                map.emplace(id, std::move(tags));
-            };
-
             if (not tags.empty()) {
                 if constexpr (is_mmap_tag_helper<tag_helper>) {
-                    memory_mapped::retry_alloc([&]() {
-                                _set_map_tags();
-                            }, [&](auto &ex) {
-                                handle_bad_alloc(ex);
-                            });
+                    // the moved in tags live in the mapping that growing replaces, release them before retrying
+                    std::vector<typename tag_vector_type::value_type> copied_tags;
+                    {
+                        const tag_vector_type moved_tags{std::move(tags)};
+                        copied_tags.assign(std::cbegin(moved_tags), std::cend(moved_tags));
+                    }
+                    copy_map_tags(id, copied_tags, map_tag);
                 } else {
-                    _set_map_tags();
+                    get_map(map_tag).emplace(id, std::move(tags));
                 }
             }
         }
 
         void set_map_tags(const std::uint64_t id, const osmium::TagList &tag_list, MAP_TAGS map_tag) {
-            if (not tag_list.empty()) {
-                set_map_tags(id, tags(tag_list), map_tag);
+            const auto &_set_map_tags = [&]() {
+                if (not tag_list.empty()) {
+                    auto &map = get_map(map_tag);
+                    map.emplace(id, tags(tag_list));
+                }
+            };
+
+            if constexpr (is_mmap_tag_helper<tag_helper>) {
+                memory_mapped::retry_alloc([&]() {
+                            _set_map_tags();
+                        }, [&](auto &ex) {
+                            handle_bad_alloc(ex);
+                        });
+            } else {
+                _set_map_tags();
             }
         }
 
-- 
2.43.0


From 38132721aa4a1a545f9d30c51fe35e3a438f569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 12/29] fix: an edge moved into a full memory-mapped graph
 keeps its points

---
 src/library/include/io/helper/graph_helper.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/library/include/io/helper/graph_helper.hpp b/src/library/include/io/helper/graph_helper.hpp
index b1fb14e..6826f80 100644
--- a/src/library/include/io/helper/graph_helper.hpp
+++ b/src/library/include/io/helper/graph_helper.hpp
@@ -23,6 +23,8 @@
 
 #include <osmium/tags/taglist.hpp>
 
+#include "geometry/models.hpp"
+
 #include "graph/concepts.hpp"
 #include "graph/traits/graph.hpp"
 
@@ -452,10 +454,20 @@ namespace map_matching_2::io::helper {
                 edge_data_type edge_data) requires
             (graph::is_adjacency_list<graph_type>) {
             if constexpr (is_mmap_graph_helper<graph_helper>) {
+                // the moved in edge lives in the mapping that growing replaces, release it and try with copies
+                const auto edge_id = edge_data.id;
+                geometry::linestring<typename rich_line_type::point_type> line;
+                {
+                    const edge_data_type moved_edge_data{std::move(edge_data)};
+                    line.assign(std::cbegin(moved_edge_data.rich_line.line()),
+                            std::cend(moved_edge_data.rich_line.line()));
+                }
                 return io::memory_mapped::retry_alloc([&]() {
                             const vertex_descriptor &source = get_vertex_descriptor_for_index(source_index);
                             const vertex_descriptor &target = get_vertex_descriptor_for_index(target_index);
-                            return graph().add_edge(source, target, std::move(edge_data));
+                            return graph().add_edge(source, target, edge_data_type{
+                                    edge_id, rich_line_type{line, allocator()}
+                            });
                         }, [&](auto &ex) {
                             handle_bad_alloc(ex);
                         });
-- 
2.43.0


From b8ec1409edf0ad0dd1b65046ef22d93f05338105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 13/29] fix: removing duplicate edges does not look at the
 edges it already removed

---
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index bb69636..9fcce20 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -255,9 +255,9 @@ namespace map_matching_2::geometry::network {
                 if (edge_set.contains(edge)) {
                     graph.remove_edge(edge_desc);
                     reindex = true;
+                } else {
+                    edge_set.emplace(edge);
                 }
-
-                edge_set.emplace(edge);
             }
 
             if (reindex) {
-- 
2.43.0


From 9979434840ae2ab50a87c13402292e3e7e2de3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 14/29] fix: infer the track file type only when it was not
 specified

tracks_data::correct asked for the options match-file-type and
compare-file-type, which do not exist (they are named
match-tracks-file-type and compare-tracks-file-type), so that in compare
mode a manually specified file type was overwritten by the file extension.
---
 src/app/src/app/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/src/app/options.cpp b/src/app/src/app/options.cpp
index f3b4641..ff8dbea 100644
--- a/src/app/src/app/options.cpp
+++ b/src/app/src/app/options.cpp
@@ -233,7 +233,7 @@ namespace map_matching_2::app {
                 throw std::invalid_argument{"no tracks file specified, please see help."};
             }
 
-            if (vm["tracks-file-type"].empty() and vm["match-file-type"].empty() and vm["compare-file-type"].empty()) {
+            if (file_extension.empty()) {
                 std::string _file_extension{};
                 for (const auto &file : files) {
                     file_extension = std::filesystem::path(file).extension().string();
-- 
2.43.0


From 79675b8b5ce25805504537ae445f11990786ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 15/29] fix: a network file that cannot be opened for writing
 or reading is reported

---
 src/library/include/io/serialization/deserializer.hpp | 9 ++++++---
 src/library/include/io/serialization/serializer.hpp   | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/library/include/io/serialization/deserializer.hpp b/src/library/include/io/serialization/deserializer.hpp
index 1276195..8518377 100644
--- a/src/library/include/io/serialization/deserializer.hpp
+++ b/src/library/include/io/serialization/deserializer.hpp
@@ -18,6 +18,7 @@
 
 #include <fstream>
 #include <filesystem>
+#include <stdexcept>
 
 #include <boost/archive/binary_iarchive.hpp>
 
@@ -42,10 +43,12 @@ namespace map_matching_2::io::serialization {
 
             std::ifstream file;
             file.open(path, std::ios_base::binary);
-            if (file.is_open() && file.good()) {
-                boost::archive::binary_iarchive in{file};
-                in >> _data;
+            if (not file.is_open() or not file.good()) {
+                throw std::runtime_error("file " + filename + " could not be opened for reading.");
             }
+
+            boost::archive::binary_iarchive in{file};
+            in >> _data;
         }
 
     private:
diff --git a/src/library/include/io/serialization/serializer.hpp b/src/library/include/io/serialization/serializer.hpp
index 339fd8a..b5d35cd 100644
--- a/src/library/include/io/serialization/serializer.hpp
+++ b/src/library/include/io/serialization/serializer.hpp
@@ -17,6 +17,7 @@
 #define MAP_MATCHING_2_IO_SERIALIZATION_SERIALIZER_HPP
 
 #include <fstream>
+#include <stdexcept>
 
 #include <boost/archive/binary_oarchive.hpp>
 
@@ -35,10 +36,12 @@ namespace map_matching_2::io::serialization {
             std::ofstream file;
             file.open(this->filename(), std::ios_base::binary | std::ios_base::trunc);
 
-            if (file.is_open() && file.good()) {
-                boost::archive::binary_oarchive out{file};
-                out << _data;
+            if (not file.is_open() or not file.good()) {
+                throw std::runtime_error("file " + this->filename() + " could not be opened for writing.");
             }
+
+            boost::archive::binary_oarchive out{file};
+            out << _data;
         }
 
     private:
-- 
2.43.0


From c2e6fc105c3f7e786f6f8d4e6e5f9cd0337777db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 16/29] fix: remove_edge keeps its descriptor when it was given
 from one of the lists it erases from

---
 src/library/include/graph/adjacency_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/graph/adjacency_list.hpp b/src/library/include/graph/adjacency_list.hpp
index fcc3057..83a7182 100644
--- a/src/library/include/graph/adjacency_list.hpp
+++ b/src/library/include/graph/adjacency_list.hpp
@@ -1125,7 +1125,7 @@ namespace map_matching_2::graph {
             }
         }
 
-        void remove_edge(const edge_descriptor &edge_desc) requires
+        void remove_edge(const edge_descriptor edge_desc) requires
             (not util::is_random_access_v<edge_container> and
                 not util::is_random_access_v<out_edge_container> and
                 (not is_bidirectional_v or not util::is_random_access_v<in_edge_container>)) {
-- 
2.43.0


From b14cc49467f75a2fe94b26f5541be9800b358f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 17/29] fix: remove_vertex refuses a vertex that still has
 incoming edges

---
 src/library/include/graph/adjacency_list.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/include/graph/adjacency_list.hpp b/src/library/include/graph/adjacency_list.hpp
index 83a7182..ce15569 100644
--- a/src/library/include/graph/adjacency_list.hpp
+++ b/src/library/include/graph/adjacency_list.hpp
@@ -1014,6 +1014,12 @@ namespace map_matching_2::graph {
                 throw std::runtime_error("vertex is still connected.");
             }
 
+            if constexpr (is_bidirectional_v) {
+                if (not in_edges_view(vertex).empty()) {
+                    throw std::runtime_error("vertex is still connected.");
+                }
+            }
+
             vertices.erase(vertex);
         }
 
-- 
2.43.0


From 54d3738ebcded4e7cc89234d45a853f455d79af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:54 +0000
Subject: [PATCH 18/29] fix: a column that is not known stays empty in every
 row instead of shifting the others

---
 src/library/include/io/results/compare/csv_compare_exporter.hpp  | 1 +
 src/library/include/io/results/match/csv_candidates_exporter.hpp | 1 +
 src/library/include/io/results/match/csv_match_exporter.hpp      | 1 +
 src/library/include/io/results/track/csv_track_exporter.hpp      | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/library/include/io/results/compare/csv_compare_exporter.hpp b/src/library/include/io/results/compare/csv_compare_exporter.hpp
index 3ba94a4..84b9299 100644
--- a/src/library/include/io/results/compare/csv_compare_exporter.hpp
+++ b/src/library/include/io/results/compare/csv_compare_exporter.hpp
@@ -226,6 +226,7 @@ namespace map_matching_2::io::results {
                         result.emplace_back(task.error_misses);
                         break;
                     default:
+                        result.emplace_back();
                         break;
                 }
             }
diff --git a/src/library/include/io/results/match/csv_candidates_exporter.hpp b/src/library/include/io/results/match/csv_candidates_exporter.hpp
index 5c06429..e4fa1ce 100644
--- a/src/library/include/io/results/match/csv_candidates_exporter.hpp
+++ b/src/library/include/io/results/match/csv_candidates_exporter.hpp
@@ -229,6 +229,7 @@ namespace map_matching_2::io::results {
                                 row.emplace_back(std::to_string(_result.is_result));
                                 break;
                             default:
+                                row.emplace_back();
                                 break;
                         }
                     }
diff --git a/src/library/include/io/results/match/csv_match_exporter.hpp b/src/library/include/io/results/match/csv_match_exporter.hpp
index 18ad7f9..dd3e862 100644
--- a/src/library/include/io/results/match/csv_match_exporter.hpp
+++ b/src/library/include/io/results/match/csv_match_exporter.hpp
@@ -194,6 +194,7 @@ namespace map_matching_2::io::results {
                         result.emplace_back(task.edge_ids);
                         break;
                     default:
+                        result.emplace_back();
                         break;
                 }
             }
diff --git a/src/library/include/io/results/track/csv_track_exporter.hpp b/src/library/include/io/results/track/csv_track_exporter.hpp
index 89b62a7..f89f3da 100644
--- a/src/library/include/io/results/track/csv_track_exporter.hpp
+++ b/src/library/include/io/results/track/csv_track_exporter.hpp
@@ -95,6 +95,7 @@ namespace map_matching_2::io::results {
                         result.emplace_back(task.track);
                         break;
                     default:
+                        result.emplace_back();
                         break;
                 }
             }
-- 
2.43.0


From 546aef2507a1842bc902e78387f2f530c492b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:23 +0000
Subject: [PATCH 19/29] fix: a comparison column that is asked for twice does
 not repeat its geometry

---
 .../include/io/results/compare/csv_compare_exporter.hpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/include/io/results/compare/csv_compare_exporter.hpp b/src/library/include/io/results/compare/csv_compare_exporter.hpp
index 84b9299..7a23a36 100644
--- a/src/library/include/io/results/compare/csv_compare_exporter.hpp
+++ b/src/library/include/io/results/compare/csv_compare_exporter.hpp
@@ -76,6 +76,7 @@ namespace map_matching_2::io::results {
                             }
                             break;
                         case column::CORRECTS:
+                            corrects.clear();
                             corrects.reserve(compare_result.comparison.corrects.size());
                             for (const auto &correct : compare_result.comparison.corrects) {
                                 corrects.emplace_back(line_type{correct.first(), correct.second()});
@@ -83,6 +84,7 @@ namespace map_matching_2::io::results {
                             corrects_wkt = geometry::to_wkt(corrects);
                             break;
                         case column::ERROR_ADDS:
+                            error_adds.clear();
                             error_adds.reserve(compare_result.comparison.error_adds.size());
                             for (const auto &error_add : compare_result.comparison.error_adds) {
                                 error_adds.emplace_back(line_type{error_add.first(), error_add.second()});
@@ -90,6 +92,7 @@ namespace map_matching_2::io::results {
                             error_adds_wkt = geometry::to_wkt(error_adds);
                             break;
                         case column::ERROR_MISSES:
+                            error_misses.clear();
                             error_misses.reserve(compare_result.comparison.error_misses.size());
                             for (const auto &error_miss : compare_result.comparison.error_misses) {
                                 error_misses.emplace_back(line_type{error_miss.first(), error_miss.second()});
-- 
2.43.0


From a403f256029515e0cb31268a3797bd5261aa9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 20/29] fix: a task queued right before the queue is closed is
 not lost

---
 src/library/include/util/coordinator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/include/util/coordinator.hpp b/src/library/include/util/coordinator.hpp
index 9301250..113d834 100644
--- a/src/library/include/util/coordinator.hpp
+++ b/src/library/include/util/coordinator.hpp
@@ -76,7 +76,8 @@ namespace map_matching_2::util {
         virtual void execute(task_type &&task) = 0;
 
         void _start() {
-            while (not _queue.empty() or not _queue.closed()) {
+            // closed needs to be checked first, else a task queued between both checks is lost when the queue closes
+            while (not _queue.closed() or not _queue.empty()) {
                 task_type task;
                 auto queue_op = _queue.wait_pull_front(task);
                 if (queue_op == boost::queue_op_status::success) {
-- 
2.43.0


From 51a22b4ea3389df377bf80728760fc979e27e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 21/29] fix: matcher and comparator finish their workers before
 they stop their exporters

---
 src/library/include/matching/matcher.hpp | 4 ++++
 src/library/src/compare/comparator.cpp   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/library/include/matching/matcher.hpp b/src/library/include/matching/matcher.hpp
index 9fd976a..c28c39a 100644
--- a/src/library/include/matching/matcher.hpp
+++ b/src/library/include/matching/matcher.hpp
@@ -77,6 +77,10 @@ namespace map_matching_2::matching {
         }
 
         ~matcher() override {
+            // workers need to have finished before the exporters they pass their results to are stopped
+            this->stop();
+            this->join();
+
             _output_printer.stop();
             _exporter.stop();
             _candidates_exporter.stop();
diff --git a/src/library/src/compare/comparator.cpp b/src/library/src/compare/comparator.cpp
index ae8f077..94705a4 100644
--- a/src/library/src/compare/comparator.cpp
+++ b/src/library/src/compare/comparator.cpp
@@ -30,6 +30,10 @@ namespace map_matching_2::compare {
     }
 
     comparator::~comparator() {
+        // workers need to have finished before the exporters they pass their results to are stopped
+        this->stop();
+        this->join();
+
         _output_printer.stop();
         _exporter.stop();
 
-- 
2.43.0


From 502701da0cf086ef5d43b8599f217aee3908469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 22/29] fix: a task that fails is reported instead of vanishing
 without a trace

---
 src/library/include/util/coordinator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/include/util/coordinator.hpp b/src/library/include/util/coordinator.hpp
index 113d834..d45ff60 100644
--- a/src/library/include/util/coordinator.hpp
+++ b/src/library/include/util/coordinator.hpp
@@ -16,6 +16,9 @@
 #ifndef MAP_MATCHING_2_UTIL_COORDINATOR_HPP
 #define MAP_MATCHING_2_UTIL_COORDINATOR_HPP
 
+#include <exception>
+#include <format>
+#include <iostream>
 #include <semaphore>
 
 #include <boost/thread.hpp>
@@ -86,6 +89,9 @@ namespace map_matching_2::util {
                         try {
                             execute(std::move(task));
                             _semaphore.release();
+                        } catch (const std::exception &exception) {
+                            _semaphore.release();
+                            std::cerr << std::format("Error: {}\n", exception.what()) << std::flush;
                         } catch (...) {
                             _semaphore.release();
                             throw;
-- 
2.43.0


From b5b713a71f6c5f94d957b9737adbd82c03233c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 23/29] fix: back conversion of a transformed network starts
 from the coordinates it was transformed to

---
 src/library/src/geometry/srs.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/library/src/geometry/srs.cpp b/src/library/src/geometry/srs.cpp
index 8a29082..9a5e9f0 100644
--- a/src/library/src/geometry/srs.cpp
+++ b/src/library/src/geometry/srs.cpp
@@ -130,10 +130,11 @@ namespace map_matching_2::geometry {
     srs_transform compute_next_srs_transform(const srs_transform &_srs_transform, const std::int32_t transform_srs_code,
             const SRS transform_srs_type) {
 
-        if (_srs_transform.transform_srs_type != SRS::CS_INVALID and _srs_transform.srs_code != transform_srs_code and
-            _srs_transform.transform_srs_type != transform_srs_type) {
+        if (_srs_transform.transform_srs_type != SRS::CS_INVALID and
+            not(_srs_transform.transform_srs_code == transform_srs_code and
+                _srs_transform.transform_srs_type == transform_srs_type)) {
             return srs_transform{
-                    srs{_srs_transform.srs_code, _srs_transform.transform_srs_type},
+                    srs{_srs_transform.transform_srs_code, _srs_transform.transform_srs_type},
                     transform_srs_code, transform_srs_type
             };
         }
-- 
2.43.0


From 73cb571712f829476ebc0fb20df14799b1cbaeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 24/29] fix: an edges list with an edge that is not in the
 network is reported and skipped

---
 src/library/include/io/track/edges_list_importer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/io/track/edges_list_importer.hpp b/src/library/include/io/track/edges_list_importer.hpp
index bc4619f..066e224 100644
--- a/src/library/include/io/track/edges_list_importer.hpp
+++ b/src/library/include/io/track/edges_list_importer.hpp
@@ -150,8 +150,8 @@ namespace map_matching_2::io::track {
                             }
                             prev_edge_id = edge_id;
 
-                            const auto &edge_descriptors = _edge_map.at(edge_id);
-                            if (edge_descriptors.empty()) {
+                            const auto edge_it = _edge_map.find(edge_id);
+                            if (edge_it == _edge_map.end() or edge_it->second.empty()) {
                                 std::cerr << std::format(
                                         "file '{}' contains edge with id {} but no such edge exists in the network, skipping ...",
                                         filenames[i], edge_id) << std::endl;
@@ -159,7 +159,7 @@ namespace map_matching_2::io::track {
                                 break;
                             }
 
-                            edge_descriptor_list.emplace_back(edge_descriptors);
+                            edge_descriptor_list.emplace_back(edge_it->second);
                         }
                     }
 
-- 
2.43.0


From 04683997a4dfb145c26f8f5a4e9d1ee3f20a79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 25/29] fix: points of a track with equal timestamps keep the
 order they were read in

---
 src/library/include/io/track/csv_track_importer.hpp | 2 +-
 src/library/include/io/track/gpx_track_importer.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/io/track/csv_track_importer.hpp b/src/library/include/io/track/csv_track_importer.hpp
index 04982d1..601bfed 100644
--- a/src/library/include/io/track/csv_track_importer.hpp
+++ b/src/library/include/io/track/csv_track_importer.hpp
@@ -226,7 +226,7 @@ namespace map_matching_2::io::track {
                     if (_selectors.empty() or _selectors.contains(id)) {
                         auto &measurements = std::any_cast<std::vector<measurement_type_out> &>(
                                 measurement_pair.second);
-                        std::sort(std::begin(measurements), std::end(measurements));
+                        std::stable_sort(std::begin(measurements), std::end(measurements));
                         _forwarder.pass(multi_track_type{
                                 id, geometry::measurements2line<measurement_type_out, line_type_out>(
                                         std::move(measurements))
diff --git a/src/library/include/io/track/gpx_track_importer.hpp b/src/library/include/io/track/gpx_track_importer.hpp
index 27feef4..c82ae8e 100644
--- a/src/library/include/io/track/gpx_track_importer.hpp
+++ b/src/library/include/io/track/gpx_track_importer.hpp
@@ -175,7 +175,7 @@ namespace map_matching_2::io::track {
                 }
             }
 
-            std::sort(std::begin(measurements), std::end(measurements));
+            std::stable_sort(std::begin(measurements), std::end(measurements));
 
             return geometry::measurements2line<measurement_type_out, line_type_out>(measurements);
         };
-- 
2.43.0


From c8c91bb5dc184d57fe3e45fe0102a2732acc33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 26/29] fix: a point whose types do not fit the reprojector is
 an error, not silently the origin

---
 src/library/include/geometry/algorithm/reproject.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index a45608a..deed54e 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -16,6 +16,10 @@
 #ifndef MAP_MATCHING_2_GEOMETRY_ALGORITHM_REPROJECT_HPP
 #define MAP_MATCHING_2_GEOMETRY_ALGORITHM_REPROJECT_HPP
 
+#include <concepts>
+#include <stdexcept>
+#include <variant>
+
 #include "types/geometry/reprojector.hpp"
 
 namespace map_matching_2::geometry {
@@ -34,15 +38,13 @@ namespace map_matching_2::geometry {
                 if constexpr (std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>) {
                     out_point = reprojector(in_point);
                 } else {
-                    static_assert(not(std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>),
-                            "reprojector not called because types mismatch.");
+                    throw std::invalid_argument{"reprojector not called because types mismatch."};
                 }
             } else {
                 if constexpr (std::same_as<InPoint, OutPoint>) {
                     out_point = in_point;
                 } else {
-                    static_assert(not std::same_as<InPoint, OutPoint>,
-                            "no transform reprojector and types mismatch.");
+                    throw std::invalid_argument{"no transform reprojector and types mismatch."};
                 }
             }
         }, reprojector_variant);
-- 
2.43.0


From e87e411ba1a9b43f9fdef3cdebc6f96cc17c2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 27/29] fix: a way without nodes is no endless loop

---
 src/library/include/io/network/osm_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index a351c97..c9dd42a 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -66,7 +66,7 @@ namespace map_matching_2::io::network {
                     }
                 }
 
-                for (std::size_t i = 0; i < osm_nodes.size() - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < osm_nodes.size(); ++i) {
                     try {
                         const auto index_from = static_cast<std::uint64_t>(osm_nodes[i].ref());
                         const auto index_to = static_cast<std::uint64_t>(osm_nodes[i + 1].ref());
-- 
2.43.0


From 09d8602841e4b200dd244c1ecc07ba6b55eeda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 28/29] fix: a reversed oneway is a directed edge

---
 src/library/include/io/network/osm_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index c9dd42a..c4000f6 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -120,6 +120,7 @@ namespace map_matching_2::io::network {
                     oneway = true;
                 }
                 if (_oneway_reverse(tag)) {
+                    oneway = true;
                     reverse = true;
                 }
             }
-- 
2.43.0


From 24bdc4e7cb78f3d45641551ac42f585459edbcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 29/29] fix: networks of all formats are transformed, their
 edges too

---
 .../include/geometry/algorithm/reproject.hpp      | 15 +++++++++++++++
 .../include/io/network/arc_node_importer.hpp      |  2 +-
 .../include/io/network/giscup_importer.hpp        | 12 +++++++-----
 .../include/io/network/melbourne_importer.hpp     |  3 ++-
 .../include/io/network/seattle_importer.hpp       |  7 +++++--
 5 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index deed54e..6cd436b 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -50,6 +50,21 @@ namespace map_matching_2::geometry {
         }, reprojector_variant);
     }
 
+    // the coordinates of the point are in the system of the input, whose type only the reprojector knows
+    template<typename Point>
+    [[nodiscard]] Point reproject_input_point(const Point &input_point,
+            const point_reprojector_variant &reprojector_variant) {
+        return std::visit([&]<typename PointReprojector>(const PointReprojector &) -> Point {
+            using in_point_type = typename PointReprojector::in_point_type;
+
+            Point point;
+            reproject_point(in_point_type{
+                    boost::geometry::get<0>(input_point), boost::geometry::get<1>(input_point)
+            }, point, reprojector_variant);
+            return point;
+        }, reprojector_variant);
+    }
+
     template<typename InLine, typename OutLine>
     void reproject_line(const InLine &in_line, OutLine &out_line,
             const point_reprojector_variant &reprojector_variant) {
diff --git a/src/library/include/io/network/arc_node_importer.hpp b/src/library/include/io/network/arc_node_importer.hpp
index 23d87fa..21f20c7 100644
--- a/src/library/include/io/network/arc_node_importer.hpp
+++ b/src/library/include/io/network/arc_node_importer.hpp
@@ -76,7 +76,7 @@ namespace map_matching_2::io::network {
                     boost::split(parts, line, boost::is_any_of("\t;,| "));
                     point_type point{std::stod(parts.at(0)), std::stod(parts.at(1))};
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
-                            vertex_data_type{id++, std::move(point), _reprojector_variant});
+                            vertex_data_type{id++, geometry::reproject_input_point(point, _reprojector_variant)});
                     _node_map.emplace_back(vertex_index);
                 }
 
diff --git a/src/library/include/io/network/giscup_importer.hpp b/src/library/include/io/network/giscup_importer.hpp
index 3788ab5..c1ecd6f 100644
--- a/src/library/include/io/network/giscup_importer.hpp
+++ b/src/library/include/io/network/giscup_importer.hpp
@@ -77,7 +77,8 @@ namespace map_matching_2::io::network {
 
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
                             vertex_data_type{
-                                    static_cast<std::uint64_t>(node_id), std::move(point), _reprojector_variant
+                                    static_cast<std::uint64_t>(node_id),
+                                    geometry::reproject_input_point(point, _reprojector_variant)
                             });
                     _vertex_map.emplace(node_id, vertex_index);
                 }
@@ -115,10 +116,11 @@ namespace map_matching_2::io::network {
                     // const std::string name = parts.at(1);
                     // const std::string type = parts.at(2);
 
-                    line_type geometry;
-                    geometry.reserve(parts.size() > 4 ? parts.size() - 4 : 0);
+                    line_type edge_line;
+                    edge_line.reserve(parts.size() > 4 ? parts.size() - 4 : 0);
                     for (std::size_t j = 4; j + 1 < parts.size(); j += 2) {
-                        geometry.emplace_back(point_type{std::stod(parts.at(j + 1)), std::stod(parts.at(j))});
+                        edge_line.emplace_back(geometry::reproject_input_point(
+                                point_type{std::stod(parts.at(j + 1)), std::stod(parts.at(j))}, _reprojector_variant));
                     }
 
                     auto [from_node_id, to_node_id] = _edge_map.at(edge_id);
@@ -132,7 +134,7 @@ namespace map_matching_2::io::network {
 
                     _graph_helper.add_edge(
                             from_vertex, to_vertex, edge_data_type{
-                                    edge_id, rich_line_type{std::move(geometry)}
+                                    edge_id, rich_line_type{std::move(edge_line)}
                             });
                 }
             }
diff --git a/src/library/include/io/network/melbourne_importer.hpp b/src/library/include/io/network/melbourne_importer.hpp
index b96cfb5..be90b55 100644
--- a/src/library/include/io/network/melbourne_importer.hpp
+++ b/src/library/include/io/network/melbourne_importer.hpp
@@ -79,7 +79,8 @@ namespace map_matching_2::io::network {
 
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
                             vertex_data_type{
-                                    static_cast<std::uint64_t>(node_id), std::move(point), _reprojector_variant
+                                    static_cast<std::uint64_t>(node_id),
+                                    geometry::reproject_input_point(point, _reprojector_variant)
                             });
                     _vertex_map.emplace(node_id, vertex_index);
                 }
diff --git a/src/library/include/io/network/seattle_importer.hpp b/src/library/include/io/network/seattle_importer.hpp
index cc3c163..a5018bf 100644
--- a/src/library/include/io/network/seattle_importer.hpp
+++ b/src/library/include/io/network/seattle_importer.hpp
@@ -82,13 +82,16 @@ namespace map_matching_2::io::network {
 
                     line_type edge_line;
                     boost::geometry::read_wkt(wkt_line, edge_line);
+                    for (auto &point : edge_line) {
+                        point = geometry::reproject_input_point(point, _reprojector_variant);
+                    }
 
                     vertex_size_type from_vertex;
                     if (not _vertex_map.contains(from_node_id)) {
                         const point_type &from_point = edge_line.front();
                         from_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
-                                        from_node_id, from_point, _reprojector_variant
+                                        from_node_id, from_point
                                 });
                         _vertex_map.emplace(from_node_id, from_vertex);
                     } else {
@@ -100,7 +103,7 @@ namespace map_matching_2::io::network {
                         const point_type &to_point = edge_line.back();
                         to_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
-                                        to_node_id, to_point, _reprojector_variant
+                                        to_node_id, to_point
                                 });
                         _vertex_map.emplace(to_node_id, to_vertex);
                     } else {
-- 
2.43.0

