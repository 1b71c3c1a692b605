From fcde59f0d8d081aeed340b02a48d95dce851bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 001/141] fix: Transform::to_matrix places scale and
 translation for column-major matrices

glm matrices are indexed [column][row]: the translation is the fourth column and the
scale of axis i multiplies column i, so that to_matrix() * vec4(p, 1) equals apply_to_point(p).
---
 include/huira_impl/core/transform.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 9d1af84..d127aed 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -37,14 +37,14 @@ Mat4<T> Transform<T>::to_matrix() const
     Mat3<T> rot_basis = rotation.local_to_parent_matrix();
     for (int i = 0; i < 3; ++i) {
         for (int j = 0; j < 3; ++j) {
-            result[i][j] = rot_basis[i][j] * scale[j];
+            result[i][j] = rot_basis[i][j] * scale[i];
         }
     }
 
     // Apply position
-    result[0][3] = position.x;
-    result[1][3] = position.y;
-    result[2][3] = position.z;
+    result[3][0] = position.x;
+    result[3][1] = position.y;
+    result[3][2] = position.z;
 
     // Set homogeneous coordinate
     result[3][3] = T(1);
-- 
2.43.0


From 8a0cc95f00d5c2e8036ad94d840232fe3997faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 002/141] fix: Transform::inverse accounts for rotation in
 velocity and for scale order in position

Composing a transform with its inverse must be the identity at rest.  The origin of the outer
frame moves with w x p as seen from a rotating inner frame, and the inverse scale is applied
after the inverse rotation.
---
 include/huira_impl/core/transform.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index d127aed..6bc37e6 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -120,10 +120,12 @@ Transform<T> Transform<T>::inverse() const
     result.scale = Vec3<T>{T(1) / scale.x, T(1) / scale.y, T(1) / scale.z};
 
     // Inverse position: undo the rotation and scale
-    result.position = result.rotation * (-position * result.scale);
+    result.position = result.scale * (result.rotation * (-position));
 
     // Inverse velocity (in the new frame)
-    result.velocity = result.rotation * (-velocity * result.scale);
+    // v_inv = S^-1 R^-1 (w x p - v), so that the composition with this transform is at rest
+    result.velocity =
+        result.scale * (result.rotation * (glm::cross(angular_velocity, position) - velocity));
 
     // Inverse angular velocity
     result.angular_velocity = result.rotation * (-angular_velocity);
-- 
2.43.0


From afd3b9264f447657a063042b75690a2cc7f5415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 003/141] fix: international mile is 1609.344 m exactly

It was 1609.34 m, which disagrees with the foot, the yard and the mile per hour defined beside it.
---
 include/huira/units/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/units/units.hpp b/include/huira/units/units.hpp
index d738f4b..dbafaae 100644
--- a/include/huira/units/units.hpp
+++ b/include/huira/units/units.hpp
@@ -54,7 +54,7 @@ using AstronomicalUnit = Quantity<Length, std::ratio<149597870700, 1>>;
 
 using Foot = Quantity<Length, std::ratio<381, 1250>>;
 using Yard = Quantity<Length, std::ratio<1143, 1250>>;
-using Mile = Quantity<Length, std::ratio<80467, 50>>;
+using Mile = Quantity<Length, std::ratio<201168, 125>>;
 /// @}
 
 /// @defgroup mass_units Mass Units
-- 
2.43.0


From bce2d84829dcd35a368b885a402a719dc0da6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 004/141] fix: RGB to spectral overlap test uses the blue bin's
 lower edge

---
 include/huira_impl/core/spectral_bins.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 8c11cee..5306f12 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -799,7 +799,7 @@ TSpectral convert_rgb_to_spectral(const RGB& rgb)
         // Determine overlap between TSpectral's full range and RGB's full range
         constexpr double spectral_min = TSpectral::get_bin(0).min_wavelength;
         constexpr double spectral_max = TSpectral::get_bin(TSpectral::size() - 1).max_wavelength;
-        constexpr double rgb_min = RGB::get_bin(0).min_wavelength; // 380nm (blue bin min)
+        constexpr double rgb_min = RGB::get_bin(2).min_wavelength; // 380nm (blue bin min)
         constexpr double rgb_max = RGB::get_bin(0).max_wavelength; // 750nm (red bin max)
 
         constexpr double overlap_min = std::max(spectral_min, rgb_min);
-- 
2.43.0


From 331867442c122b4470cb0c9f58830c2ad610c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 005/141] fix: aberration formula keeps the Lorentz factor, so
 the direction stays unit length

---
 include/huira_impl/core/physics.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index b2a6204..b25f37d 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -249,15 +249,16 @@ inline Vec3<double> compute_aberrated_direction(Vec3<double> direction, Vec3<dou
 
         // Relativistic Aberration Formula
         //    Transforms the direction vector 'u' into the moving frame 'u_app'.
-        //    Formula: u_app = (u + beta + (gamma / (1+gamma)) * (u . beta) * beta)
-        //                     ----------------------------------------------------
+        //    Formula: u_app = (u + gamma * beta + (gamma^2 / (1+gamma)) * (u . beta) * beta)
+        //                     --------------------------------------------------------------
         //                             gamma * (1 + u . beta)
         //
         // Because 'u' is (Observer -> Object) and we move 'v',
         // the object should appear shifted TOWARDS 'v'.
-        // (u + beta) in the numerator achieves this correctly.
+        // (u + gamma * beta) in the numerator achieves this correctly.
 
-        Vec3<double> num = direction + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
+        Vec3<double> num =
+            direction + gamma * beta + (gamma * gamma / (1.0 + gamma)) * u_dot_beta * beta;
         double den = gamma * (1.0 + u_dot_beta);
 
         return num / den;
-- 
2.43.0


From 689d9eb4fe423f42add2c5a3b5398530ccbee6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 006/141] fix: RGB to spectral overlap test does not assume
 bins are in wavelength order

---
 include/huira_impl/core/spectral_bins.ipp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 5306f12..a12a2d8 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <array>
 #include <iostream>
 #include <string>
@@ -797,8 +798,16 @@ TSpectral convert_rgb_to_spectral(const RGB& rgb)
         return rgb;
     } else {
         // Determine overlap between TSpectral's full range and RGB's full range
-        constexpr double spectral_min = TSpectral::get_bin(0).min_wavelength;
-        constexpr double spectral_max = TSpectral::get_bin(TSpectral::size() - 1).max_wavelength;
+        // (bins need not be listed in wavelength order)
+        constexpr auto spectral_bins = TSpectral::get_all_bins();
+        constexpr double spectral_min =
+            std::min_element(spectral_bins.begin(), spectral_bins.end(), [](const Bin& a, const Bin& b) {
+                return a.min_wavelength < b.min_wavelength;
+            })->min_wavelength;
+        constexpr double spectral_max =
+            std::max_element(spectral_bins.begin(), spectral_bins.end(), [](const Bin& a, const Bin& b) {
+                return a.max_wavelength < b.max_wavelength;
+            })->max_wavelength;
         constexpr double rgb_min = RGB::get_bin(2).min_wavelength; // 380nm (blue bin min)
         constexpr double rgb_max = RGB::get_bin(0).max_wavelength; // 750nm (red bin max)
 
-- 
2.43.0


From 5c5d360661501d0f09d87ef3063c700394a92dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 007/141] fix: direct image convolution no longer mirrors the
 kernel (agrees with the FFT path)

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d583b0..5e9b04c 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -627,12 +627,12 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         for (int x = 0; x < this->width(); ++x) {
             PixelT sum{};
             for (int ky = 0; ky < kh; ++ky) {
-                int sy = y + ky - kcy;
+                int sy = y - (ky - kcy);
                 if (sy < 0 || sy >= this->height()) {
                     continue;
                 }
                 for (int kx = 0; kx < kw; ++kx) {
-                    int sx = x + kx - kcx;
+                    int sx = x - (kx - kcx);
                     if (sx < 0 || sx >= this->width()) {
                         continue;
                     }
-- 
2.43.0


From 4809977a99c4812f2f9155564e84594f77441ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 008/141] fix: Image::at rejects negative coordinates

---
 include/huira_impl/images/image.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 5e9b04c..fb0ed1a 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -290,7 +290,7 @@ const PixelT& Image<PixelT>::at(std::size_t index) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(int x, int y)
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -307,7 +307,7 @@ PixelT& Image<PixelT>::at(int x, int y)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(int x, int y) const
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -328,7 +328,7 @@ PixelT& Image<PixelT>::at(const Pixel& pixel)
     // TODO Do proper rounding/conversion
     auto x = static_cast<int>(pixel.x);
     auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -349,7 +349,7 @@ const PixelT& Image<PixelT>::at(const Pixel& pixel) const
     // TODO Do proper rounding/conversion
     auto x = static_cast<int>(pixel.x);
     auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
-- 
2.43.0


From e785dca7a5028cba0b11824dcd13d7673d33ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 009/141] fix: bilinear sampling rounds integer pixels instead
 of truncating

---
 include/huira_impl/images/image.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index fb0ed1a..d90b07b 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -437,7 +437,11 @@ PixelT Image<PixelT>::sample_bilinear(float u, float v) const
                        static_cast<float>(p10) * fx * (1.0f - fy) +
                        static_cast<float>(p01) * (1.0f - fx) * fy +
                        static_cast<float>(p11) * fx * fy;
-        return static_cast<PixelT>(result);
+        if constexpr (std::is_integral_v<PixelT>) {
+            return static_cast<PixelT>(std::round(result));
+        } else {
+            return static_cast<PixelT>(result);
+        }
     } else if constexpr (is_vec3_v<PixelT>) {
         using S = typename Traits::Scalar;
         return PixelT{static_cast<S>(p00.x * (1.0f - fx) * (1.0f - fy) + p10.x * fx * (1.0f - fy) +
-- 
2.43.0


From 4505d901ce2fcb00343d3228c4ff4eb61fd84baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 010/141] fix: mirrored texture coordinates do not overflow an
 int

---
 include/huira_impl/images/image.ipp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index d90b07b..465848d 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -605,11 +605,9 @@ float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
         }
         return coord;
     } else if constexpr (W == WrapMode::Mirror) {
-        coord = std::fabs(coord);
-        int period = static_cast<int>(coord / max);
-        coord = std::fmod(coord, max);
-        if (period % 2 == 1) {
-            coord = max - coord;
+        coord = std::fmod(std::fabs(coord), 2.0f * max);
+        if (coord > max) {
+            coord = 2.0f * max - coord;
         }
         return std::clamp(coord, 0.0f, max);
     } else {
-- 
2.43.0


From ae08d4c811b4ee515919a9ae7729ab51de907615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 011/141] fix: float to integer pixel conversion rounds
 negatives correctly and does not overflow 32-bit types

---
 .../huira_impl/images/io/convert_pixel.ipp    | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/images/io/convert_pixel.ipp b/include/huira_impl/images/io/convert_pixel.ipp
index bb12849..2390023 100644
--- a/include/huira_impl/images/io/convert_pixel.ipp
+++ b/include/huira_impl/images/io/convert_pixel.ipp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <limits>
 
 #include "huira/concepts/numeric_concepts.hpp"
@@ -100,19 +101,31 @@ template <IsUnsignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
     float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
-    return static_cast<T>(normalized * static_cast<float>(std::numeric_limits<T>::max()) + 0.5f);
+    if (!(normalized > 0.0f)) {
+        return 0;
+    }
+    if (normalized >= 1.0f) {
+        return std::numeric_limits<T>::max();
+    }
+    const double type_max = static_cast<double>(std::numeric_limits<T>::max());
+    return static_cast<T>(static_cast<double>(normalized) * type_max + 0.5);
 }
 
 template <IsSignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
-    float type_min = static_cast<float>(std::numeric_limits<T>::min());
-    float type_max = static_cast<float>(std::numeric_limits<T>::max());
+    const double type_min = static_cast<double>(std::numeric_limits<T>::min());
+    const double type_max = static_cast<double>(std::numeric_limits<T>::max());
 
     float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
+    if (!(normalized > 0.0f)) {
+        return std::numeric_limits<T>::min();
+    }
+    if (normalized >= 1.0f) {
+        return std::numeric_limits<T>::max();
+    }
 
-    return static_cast<T>(type_min + normalized * (type_max - type_min) + 0.5f);
+    return static_cast<T>(
+        std::floor(type_min + static_cast<double>(normalized) * (type_max - type_min) + 0.5));
 }
 } // namespace huira
-- 
2.43.0


From d647e05092176a6327ffa4417b2fafb030ae7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 012/141] fix: BMP reader rejects header sizes and dimensions
 that overflow or are not positive

---
 include/huira_impl/images/io/bmp_io.ipp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 3d68983..bcd2f78 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstring>
 #include <filesystem>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -65,7 +66,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(dib_size) + ")");
     }
 
-    if (size < 14 + dib_size) {
+    if (size < 14 + static_cast<std::size_t>(dib_size)) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in DIB header");
     }
 
@@ -92,6 +93,10 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions");
+    }
+
     int width = static_cast<int>(raw_width);
     bool flip_vertical = (raw_height > 0);
     int height = (raw_height > 0) ? static_cast<int>(raw_height) : static_cast<int>(-raw_height);
@@ -102,13 +107,13 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // BMP rows are padded to 4-byte boundaries
     std::size_t row_stride =
-        (static_cast<std::size_t>(width * file_channels) + 3) & ~static_cast<std::size_t>(3);
+        (static_cast<std::size_t>(width) * static_cast<std::size_t>(file_channels) + 3) &
+        ~static_cast<std::size_t>(3);
 
-    std::size_t required_size =
-        static_cast<std::size_t>(pixel_offset) + row_stride * static_cast<std::size_t>(height);
-    if (size < required_size) {
-        HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (need " +
-                          std::to_string(required_size) + ", have " + std::to_string(size) + ")");
+    if (size < pixel_offset ||
+        (size - pixel_offset) / row_stride < static_cast<std::size_t>(height)) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (have " +
+                          std::to_string(size) + " bytes)");
     }
 
     const unsigned char* pixel_data = data + pixel_offset;
-- 
2.43.0


From caee9fb99d80f463a6a0f8ff97ee9555f3f85127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 013/141] fix: BMP reader rejects BI_BITFIELDS channel orders
 it would decode wrongly

---
 include/huira_impl/images/io/bmp_io.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index bcd2f78..457efb5 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -93,6 +93,18 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    // BI_BITFIELDS: only the standard BGRA channel order is supported
+    if (compression == 3) {
+        uint32_t masks[3];
+        if (bits_per_pixel != 32 || size < 54 + sizeof(masks)) {
+            HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BI_BITFIELDS BMP");
+        }
+        std::memcpy(masks, &data[54], sizeof(masks));
+        if (masks[0] != 0x00FF0000u || masks[1] != 0x0000FF00u || masks[2] != 0x000000FFu) {
+            HUIRA_THROW_ERROR("read_bmp_raw_ - Unsupported BI_BITFIELDS channel masks");
+        }
+    }
+
     if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions");
     }
-- 
2.43.0


From 1fecf3cecbb165ec4decfdb03f6f773b63020eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 014/141] fix: TGA reader rejects pixel depths and color map
 entries it does not decode

---
 include/huira_impl/images/io/tga_io.ipp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 2a2fd28..c963d57 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -90,6 +90,20 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(static_cast<int>(image_type)) + ")");
     }
 
+    // Validate pixel format
+    if (is_truecolor && pixel_depth != 24 && pixel_depth != 32) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA true-color pixel depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) + ")");
+    }
+    if (is_gray && pixel_depth != 8) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA grayscale pixel depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) + ")");
+    }
+    if (is_color_mapped && ((pixel_depth != 8 && pixel_depth != 16) || color_map_type != 1 ||
+                            (cm_entry_size != 24 && cm_entry_size != 32))) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA color map format");
+    }
+
     // Current read position in buffer
     std::size_t pos = 18;
 
-- 
2.43.0


From 933a7ecee5ab90a2a0f1c87e34d0aeaf671205b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 015/141] fix: TGA reader does not write past the image for an
 oversized raw RLE packet

---
 include/huira_impl/images/io/tga_io.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index c963d57..018ec30 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -184,6 +184,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
             } else {
                 // Raw packet: 'count' literal pixel values
                 std::size_t bytes_to_read = static_cast<std::size_t>(count) * index_bytes;
+                if (static_cast<std::size_t>(count) > num_pixels - pixels_decoded) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - RLE packet exceeds the image size");
+                }
                 if (pos + bytes_to_read > size) {
                     HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
                 }
-- 
2.43.0


From 470fe961823b9c41c581bbfe026c11eaad3884f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 016/141] fix: TGA reader rejects color map indices outside the
 map

---
 include/huira_impl/images/io/tga_io.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 018ec30..dfe23e2 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -228,6 +228,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 } else if (pixel_depth == 16) {
                     std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));
                 }
+                if (index < cm_first_index || index - cm_first_index >= cm_length) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - Color map index out of range");
+                }
                 index = static_cast<uint16_t>(index - cm_first_index);
                 const unsigned char* src_ptr =
                     &color_map[static_cast<std::size_t>(index) *
-- 
2.43.0


From 3a39fcdb7f520ede11e8a7cc4eefd1af6ee2ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 017/141] fix: HDR reader honours the scan order of the
 resolution line

---
 include/huira_impl/images/io/hdr_io.ipp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 0b98c33..55e3ec6 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -166,14 +166,17 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         return false;
     };
 
+    bool flip_vertical = false;
+    bool flip_horizontal = false;
     if (parse_resolution("-Y", "+X")) {
         /* Standard top-to-bottom, left-to-right */
     } else if (parse_resolution("+Y", "+X")) {
-        /* Bottom-to-top variant */
+        flip_vertical = true; /* Bottom-to-top variant */
     } else if (parse_resolution("-Y", "-X")) {
-        /* Right-to-left variant */
+        flip_horizontal = true; /* Right-to-left variant */
     } else if (parse_resolution("+Y", "-X")) {
-        /* Both flipped */
+        flip_vertical = true; /* Both flipped */
+        flip_horizontal = true;
     } else {
         HUIRA_THROW_ERROR("read_hdr_raw_ - Unsupported resolution format: \"" + line + "\"");
     }
@@ -258,8 +261,10 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         // Convert RGBE scanline to float RGB
         for (int x = 0; x < width; ++x) {
             std::size_t src = static_cast<std::size_t>(x) * 4;
-            std::size_t dst = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
-                               static_cast<std::size_t>(x)) *
+            int dst_x = flip_horizontal ? (width - 1 - x) : x;
+            int dst_y = flip_vertical ? (height - 1 - y) : y;
+            std::size_t dst = (static_cast<std::size_t>(dst_y) * static_cast<std::size_t>(width) +
+                               static_cast<std::size_t>(dst_x)) *
                               3;
 
             rgbe_to_float_(&scanline[src], raw_data[dst], raw_data[dst + 1], raw_data[dst + 2]);
-- 
2.43.0


From 4cec0d1587a26cba9b10906991bb8f96d922a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 018/141] fix: HDR reader takes the RLE marker only for the
 widths that can be run-length encoded

---
 include/huira_impl/images/io/hdr_io.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 55e3ec6..f4eb0ce 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -200,7 +200,7 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                               std::to_string(y));
         }
 
-        bool is_new_rle = (header[0] == 2 && header[1] == 2 &&
+        bool is_new_rle = (width >= 8 && width <= 0x7FFF && header[0] == 2 && header[1] == 2 &&
                            ((static_cast<int>(header[2]) << 8) | header[3]) == width);
 
         if (is_new_rle) {
-- 
2.43.0


From 4e58b79061f23bbb651ea3f565703227ce8d3eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 019/141] fix: HDR reader checks the dimensions against the
 data before allocating

---
 include/huira_impl/images/io/hdr_io.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index f4eb0ce..2e57aae 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
@@ -186,6 +187,15 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(height) + ")");
     }
 
+    // The smallest encoding of a scanline bounds the dimensions the data can hold
+    std::size_t min_scanline = static_cast<std::size_t>(width) * 4;
+    if (width >= 8 && width <= 0x7FFF) {
+        min_scanline = std::min(min_scanline, static_cast<std::size_t>(4 + 8 * ((width + 126) / 127)));
+    }
+    if ((size - cur.pos) / min_scanline < static_cast<std::size_t>(height)) {
+        HUIRA_THROW_ERROR("read_hdr_raw_ - Unexpected end of data");
+    }
+
     // Decode scanlines
     std::size_t num_pixels = static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
     std::vector<float> raw_data(num_pixels * 3);
-- 
2.43.0


From 00c21256b92422a8f5f711b08ebd7eae9058c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 020/141] fix: HDR images are tagged linear, so they are not
 decoded as sRGB

---
 include/huira_impl/images/io/hdr_io.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 2e57aae..7c0718f 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -309,6 +309,7 @@ inline ImageBundle<RGB> read_image_hdr(const unsigned char* data, std::size_t si
     auto hdr_data = read_hdr_raw_(data, size);
 
     ImageBundle<RGB> bundle{Image<RGB>(hdr_data.resolution)};
+    bundle.color_space = ColorSpaceHint::Linear;
     for (int y = 0; y < hdr_data.height; ++y) {
         for (int x = 0; x < hdr_data.width; ++x) {
             std::size_t idx =
@@ -357,6 +358,7 @@ inline ImageBundle<float> read_image_hdr_mono(const unsigned char* data, std::si
     auto hdr_data = read_hdr_raw_(data, size);
 
     ImageBundle<float> bundle{Image<float>(hdr_data.resolution)};
+    bundle.color_space = ColorSpaceHint::Linear;
 
     for (int y = 0; y < hdr_data.height; ++y) {
         for (int x = 0; x < hdr_data.width; ++x) {
-- 
2.43.0


From 40024e595b18b6787aed10fea6a46afef4f87137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 021/141] fix: JPEG reader does not overflow int for large
 images

---
 include/huira_impl/images/io/jpeg_io.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index 8edbae2..f6c3a28 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -66,7 +66,9 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
 
     int pixel_format = force_gray ? TJPF_GRAY : TJPF_RGB;
     int channels = force_gray ? 1 : 3;
-    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width * height * channels));
+    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(channels));
 
     if (tjDecompress2(decompressor,
                       data,
@@ -167,7 +169,7 @@ inline ImageBundle<float> read_image_jpeg_mono(const unsigned char* data, std::s
 
     ImageBundle<float> bundle{Image<float>(jpeg_data.resolution)};
 
-    for (std::size_t i = 0; i < static_cast<std::size_t>(jpeg_data.width * jpeg_data.height); ++i) {
+    for (std::size_t i = 0; i < jpeg_data.raw_data.size(); ++i) {
         bundle.image[i] = integer_to_float<std::uint8_t>(jpeg_data.raw_data[i]);
     }
 
-- 
2.43.0


From b52c8145cbe0dad752efb8c2b64bec3bd39fcdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 022/141] fix: PNG reader does not leak its buffers when the
 image data is corrupt

---
 include/huira_impl/images/io/png_io.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index bd5c189..d2ec4a1 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -166,6 +166,10 @@ inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
         HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG info struct");
     }
 
+    // Declared before setjmp: a libpng error jumps out without running destructors
+    std::vector<png_byte> raw_data;
+    std::vector<png_bytep> row_pointers;
+
     if (setjmp(png_jmpbuf(png_ptr))) {
         png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
         HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
@@ -230,8 +234,8 @@ inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
     }
 
     std::size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
-    std::vector<png_byte> raw_data(row_bytes * height);
-    std::vector<png_bytep> row_pointers(height);
+    raw_data.resize(row_bytes * height);
+    row_pointers.resize(height);
 
     for (png_uint_32 y = 0; y < height; ++y) {
         row_pointers[y] = raw_data.data() + y * row_bytes;
-- 
2.43.0


From 292f6fc286a62a1cea60fd1299af9f4de1c1e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 023/141] fix: TIFF reader rejects scanline and tile layouts
 smaller than the pixels it reads from them

---
 include/huira_impl/images/io/tiff_io.ipp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 9f47b9f..ede323f 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -343,6 +343,14 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         TIFFGetField(tif.get(), TIFFTAG_TILELENGTH, &tile_height);
 
         tsize_t tile_size = TIFFTileSize(tif.get());
+
+        const std::size_t samples_per_tile_pixel =
+            planar_config == PLANARCONFIG_CONTIG ? num_channels : 1;
+        if (tile_width == 0 || tile_height == 0 || tile_size <= 0 ||
+            static_cast<std::size_t>(tile_size) / tile_width / tile_height <
+                samples_per_tile_pixel * bytes_per_sample) {
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Unsupported tile layout");
+        }
         std::vector<unsigned char> tile_buf(static_cast<std::size_t>(tile_size));
 
         if (planar_config == PLANARCONFIG_CONTIG) {
@@ -401,6 +409,13 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     } else {
         // Stripped storage
         tsize_t scanline_size = TIFFScanlineSize(tif.get());
+
+        const std::size_t samples_per_scanline_pixel =
+            planar_config == PLANARCONFIG_CONTIG ? num_channels : 1;
+        if (scanline_size <= 0 || static_cast<std::size_t>(scanline_size) / width <
+                                      samples_per_scanline_pixel * bytes_per_sample) {
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Unsupported scanline layout");
+        }
         std::vector<unsigned char> scanline_buf(static_cast<std::size_t>(scanline_size));
 
         if (planar_config == PLANARCONFIG_CONTIG) {
-- 
2.43.0


From 8751a5a9fc934911cdb0aa9a79bff2538f5aa01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 024/141] fix: TIFF reader reports tiles that cannot be decoded

---
 include/huira_impl/images/io/tiff_io.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index ede323f..a1573e3 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -356,7 +356,9 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         if (planar_config == PLANARCONFIG_CONTIG) {
             for (uint32_t ty = 0; ty < height; ty += tile_height) {
                 for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                    TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0);
+                    if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0) < 0) {
+                        HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile");
+                    }
 
                     uint32_t eff_tw = std::min(tile_width, width - tx);
                     uint32_t eff_th = std::min(tile_height, height - ty);
@@ -384,7 +386,9 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
             for (uint16_t ch = 0; ch < samples_per_pixel; ++ch) {
                 for (uint32_t ty = 0; ty < height; ty += tile_height) {
                     for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                        TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch);
+                        if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch) < 0) {
+                            HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile");
+                        }
 
                         uint32_t eff_tw = std::min(tile_width, width - tx);
                         uint32_t eff_th = std::min(tile_height, height - ty);
-- 
2.43.0


From 773e9da780a233eaa47ad9ad06be732aa1dc6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 025/141] fix: TIFF reader rejects dimensions that do not fit
 an int

---
 include/huira_impl/images/io/tiff_io.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index a1573e3..1d4f093 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -225,7 +225,8 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_PHOTOMETRIC, &photometric);
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_PLANARCONFIG, &planar_config);
 
-    if (width == 0 || height == 0) {
+    constexpr uint32_t max_dimension = static_cast<uint32_t>(std::numeric_limits<int>::max());
+    if (width == 0 || height == 0 || width > max_dimension || height > max_dimension) {
         HUIRA_THROW_ERROR("read_tiff_raw_ - Invalid dimensions (" + std::to_string(width) + " x " +
                           std::to_string(height) + ")");
     }
-- 
2.43.0


From 68da83c83fba4eaf9e89890029b78f8d1fe5d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 026/141] fix: TIFF writer rounds to the nearest level instead
 of truncating, as the other writers do

---
 include/huira_impl/images/io/tiff_io.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 1d4f093..7dbf1e9 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -714,15 +714,15 @@ inline void write_image_tiff(const fs::path& filepath,
 
             if (bundle.bit_depth == 8) {
                 scanline[offset + 0] =
-                    static_cast<uint8_t>(std::clamp(pixel[0] * 255.0f, 0.0f, 255.0f));
+                    float_to_integer<uint8_t>(pixel[0]);
                 scanline[offset + 1] =
-                    static_cast<uint8_t>(std::clamp(pixel[1] * 255.0f, 0.0f, 255.0f));
+                    float_to_integer<uint8_t>(pixel[1]);
                 scanline[offset + 2] =
-                    static_cast<uint8_t>(std::clamp(pixel[2] * 255.0f, 0.0f, 255.0f));
+                    float_to_integer<uint8_t>(pixel[2]);
             } else {
-                uint16_t r = static_cast<uint16_t>(std::clamp(pixel[0] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t g = static_cast<uint16_t>(std::clamp(pixel[1] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t b = static_cast<uint16_t>(std::clamp(pixel[2] * 65535.0f, 0.0f, 65535.0f));
+                uint16_t r = float_to_integer<uint16_t>(pixel[0]);
+                uint16_t g = float_to_integer<uint16_t>(pixel[1]);
+                uint16_t b = float_to_integer<uint16_t>(pixel[2]);
                 std::memcpy(&scanline[offset + 0], &r, 2);
                 std::memcpy(&scanline[offset + 2], &g, 2);
                 std::memcpy(&scanline[offset + 4], &b, 2);
@@ -785,10 +785,10 @@ inline void write_image_tiff(const fs::path& filepath,
             float pixel = bundle.image(static_cast<int>(x), static_cast<int>(y));
 
             if (bundle.bit_depth == 8) {
-                scanline[x] = static_cast<uint8_t>(std::clamp(pixel * 255.0f, 0.0f, 255.0f));
+                scanline[x] = float_to_integer<uint8_t>(pixel);
             } else {
                 uint16_t value =
-                    static_cast<uint16_t>(std::clamp(pixel * 65535.0f, 0.0f, 65535.0f));
+                    float_to_integer<uint16_t>(pixel);
                 std::memcpy(&scanline[x * 2], &value, 2);
             }
         }
-- 
2.43.0


From 4dd59db6c15cdc9cd8d9eaf467322118844b1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 027/141] fix: spectral TIFF writer calls the mono writer that
 exists

---
 include/huira_impl/images/io/tiff_io.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 7dbf1e9..01e5aeb 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -816,6 +816,7 @@ inline void write_image_tiff(const fs::path& filepath,
         }
     }
 
-    write_image_tiff(filepath, mono_image, bundle.bit_depth, description, artist);
+    ImageBundle<float> mono_bundle(bundle, std::move(mono_image));
+    write_image_tiff(filepath, mono_bundle, description, artist);
 }
 } // namespace huira
-- 
2.43.0


From c352fbfb2e5e124abc71eac3fe1a981156b3f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 028/141] fix: image sizes and indices do not overflow int

---
 include/huira_impl/images/image.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 465848d..940b5dd 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -27,7 +27,7 @@ Image<PixelT>::Image() : data_{}, resolution_{0, 0}
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y)), resolution_{resolution}
+    : data_(static_cast<std::size_t>(resolution.x) * static_cast<std::size_t>(resolution.y)), resolution_{resolution}
 {
 }
 
@@ -41,7 +41,7 @@ Image<PixelT>::Image(Resolution resolution)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y), fill_value),
+    : data_(static_cast<std::size_t>(resolution.x) * static_cast<std::size_t>(resolution.y), fill_value),
       resolution_{resolution}
 {
 }
@@ -56,7 +56,7 @@ Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height)
-    : data_(static_cast<std::size_t>(width * height)), resolution_{width, height}
+    : data_(static_cast<std::size_t>(width) * static_cast<std::size_t>(height)), resolution_{width, height}
 {
 }
 
@@ -71,7 +71,7 @@ Image<PixelT>::Image(int width, int height)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(width * height), fill_value), resolution_{width, height}
+    : data_(static_cast<std::size_t>(width) * static_cast<std::size_t>(height), fill_value), resolution_{width, height}
 {
 }
 
@@ -581,7 +581,8 @@ Image<float> Image<PixelT>::get_channel(std::size_t channel) const
 template <IsImagePixel PixelT>
 std::size_t Image<PixelT>::to_linear(int x, int y) const noexcept
 {
-    return static_cast<std::size_t>(y * resolution_.width + x);
+    return static_cast<std::size_t>(y) * static_cast<std::size_t>(resolution_.width) +
+           static_cast<std::size_t>(x);
 }
 
 /**
-- 
2.43.0


From ef73211ccd5003d9047f216efd7cfec7e325ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 029/141] fix: FITS writer does not clip bright pixels when the
 sensor depth exceeds what BITPIX stores

---
 include/huira_impl/images/io/fits_io.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index b21d3f4..016800e 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -585,8 +585,11 @@ inline void write_image_fits(const fs::path& filepath,
     //   • Otherwise → full BITPIX range, e.g. 65535 for BITPIX=16
     double adc_max = 0.0;
     if (is_integer) {
-        adc_max =
-            (sensor_bits > 0) ? (std::pow(2.0, sensor_bits) - 1.0) : detail::bitpix_max(bit_depth);
+        // A ceiling above what BITPIX can store would clip the upper part of [0, 1].
+        adc_max = detail::bitpix_max(bit_depth);
+        if (sensor_bits > 0) {
+            adc_max = std::min(adc_max, std::pow(2.0, sensor_bits) - 1.0);
+        }
     }
 
     // --- Write metadata ---
-- 
2.43.0


From 19cb816842438865eefab565d9cc7b51ec3a6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 030/141] fix: FITS writer rounds to the nearest count and can
 store full-scale 32-bit pixels

---
 include/huira_impl/images/io/fits_io.ipp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 016800e..554c878 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -612,10 +612,10 @@ inline void write_image_fits(const fs::path& filepath,
 
     // --- Prepare pixel buffer (flip to FITS bottom-up order) ---
     const long npixels = static_cast<long>(w) * h;
-    std::vector<float> buffer(static_cast<std::size_t>(npixels));
+    std::vector<double> buffer(static_cast<std::size_t>(npixels));
 
-    float actual_min = std::numeric_limits<float>::max();
-    float actual_max = -std::numeric_limits<float>::max();
+    double actual_min = std::numeric_limits<float>::max();
+    double actual_max = -std::numeric_limits<float>::max();
 
     long blank_value = 0;
     if (is_integer) {
@@ -625,23 +625,21 @@ inline void write_image_fits(const fs::path& filepath,
     bool has_blank = false;
     for (int y = 0; y < h; ++y) {
         const int fits_row = h - 1 - y;
-        float* dst = buffer.data() + static_cast<std::size_t>(fits_row * w);
+        double* dst = buffer.data() + static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(w);
         for (int x = 0; x < w; ++x) {
-            float px = image(x, y);
+            double px = static_cast<double>(image(x, y));
 
             if (!std::isfinite(px)) {
                 if (is_integer) {
-                    dst[x] = static_cast<float>(blank_value);
+                    dst[x] = static_cast<double>(blank_value);
                     has_blank = true;
                 } else {
-                    dst[x] = std::numeric_limits<float>::quiet_NaN();
+                    dst[x] = std::numeric_limits<double>::quiet_NaN();
                 }
             } else {
                 if (is_integer) {
-                    float lo = (bit_depth == 8) ? 1.f : 0.f;
-                    px = std::clamp(px * static_cast<float>(adc_max),
-                                    lo,
-                                    static_cast<float>(detail::bitpix_max(bit_depth)));
+                    double lo = (bit_depth == 8) ? 1.0 : 0.0;
+                    px = std::clamp(std::round(px * adc_max), lo, detail::bitpix_max(bit_depth));
                 }
                 dst[x] = px;
                 actual_min = std::min(actual_min, px);
@@ -669,9 +667,9 @@ inline void write_image_fits(const fs::path& filepath,
     }
 
     // --- Write pixels ---
-    // CFITSIO converts TFLOAT → on-disk BITPIX, quantising as needed.
+    // CFITSIO converts TDOUBLE → on-disk BITPIX; it truncates, hence the rounding above.
     long fpixel[2] = {1, 1};
-    fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
+    fits_write_pix(ff.fptr, TDOUBLE, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
 }
 
-- 
2.43.0


From 4e6c05cb2d616cfb800afb6700c52c92b9e52da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 031/141] fix: FITS reader returns NaN for undefined (BLANK)
 pixels instead of a number

---
 include/huira_impl/images/io/fits_io.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 554c878..123f82a 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -477,7 +477,8 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     long fpixel[2] = {1, 1};
     int anynul = 0;
 
-    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, nullptr, buffer.data(), &anynul, &status);
+    float undefined = std::numeric_limits<float>::quiet_NaN(); // for pixels equal to BLANK
+    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, &undefined, buffer.data(), &anynul, &status);
     detail::fits_check(status, "read pixels");
 
     // --- Normalise integer data to [0, 1] ---
-- 
2.43.0


From 9684076fa423d2ef290d35180b98c3ffaf5a8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 032/141] fix: FITS metadata with only second-axis WCS fields
 is written

---
 include/huira/images/io/fits_metadata.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira/images/io/fits_metadata.hpp b/include/huira/images/io/fits_metadata.hpp
index e0a50c0..722ba93 100644
--- a/include/huira/images/io/fits_metadata.hpp
+++ b/include/huira/images/io/fits_metadata.hpp
@@ -108,7 +108,9 @@ struct FitsMetadata {
     /// Returns true if any WCS field has been set.
     [[nodiscard]] bool has_wcs() const noexcept
     {
-        return crpix1.has_value() || crval1.has_value() || cdelt1.has_value() || !ctype1.empty();
+        return crpix1.has_value() || crpix2.has_value() || crval1.has_value() ||
+               crval2.has_value() || cdelt1.has_value() || cdelt2.has_value() ||
+               !ctype1.empty() || !ctype2.empty();
     }
 
     // TODO (multi-band):
-- 
2.43.0


From 044092ebd2da3599423c8b8686b9a1ab871ba644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 033/141] fix: FITS reader normalises unsigned 16- and 32-bit
 images to [0, 1]

---
 include/huira_impl/images/io/fits_io.ipp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 123f82a..25b4403 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -498,7 +498,17 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
             // Infer sensor bit depth from SATURATE  (e.g. 4095 → 12)
             inferred_sensor_bits = static_cast<int>(std::round(std::log2(divisor + 1.0)));
         } else {
-            divisor = detail::bitpix_max(bitpix);
+            // Unsigned 16/32-bit images are stored as signed ones plus a BZERO offset.
+            int equiv_type = bitpix;
+            fits_get_img_equivtype(ff.fptr, &equiv_type, &status);
+            detail::fits_check(status, "get image type");
+            if (equiv_type == USHORT_IMG) {
+                divisor = 65535.0;
+            } else if (equiv_type == ULONG_IMG) {
+                divisor = 4294967295.0;
+            } else {
+                divisor = detail::bitpix_max(bitpix);
+            }
         }
 
         const float inv = 1.0f / static_cast<float>(divisor);
-- 
2.43.0


From 0346c920c860a350d7aef03e564c999ee252f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 034/141] fix: FITS integer keywords that do not fit an int are
 not wrapped

---
 include/huira_impl/images/io/fits_io.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 25b4403..c6a3eba 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -360,7 +360,12 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
                 status = 0;
                 fits_read_key_lng(fptr, kn.c_str(), &lv, nullptr, &status);
                 if (status == 0) {
-                    kw.value = static_cast<int>(lv);
+                    if (lv >= std::numeric_limits<int>::min() &&
+                        lv <= std::numeric_limits<int>::max()) {
+                        kw.value = static_cast<int>(lv);
+                    } else {
+                        kw.value = static_cast<double>(lv);
+                    }
                 }
                 break;
             }
-- 
2.43.0


From 66a97233967381f233c278f7e67cef53b335eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 035/141] fix: depth map of a constant depth is not NaN

---
 include/huira/images/color_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira/images/color_map.hpp b/include/huira/images/color_map.hpp
index 51f9b4a..f3f66c0 100644
--- a/include/huira/images/color_map.hpp
+++ b/include/huira/images/color_map.hpp
@@ -37,12 +37,13 @@ inline Image<huira::RGB> depth_map(Image<float> depth)
         }
     }
 
+    const float range = max_depth - min_depth;
     for (std::size_t i = 0; i < depth.size(); ++i) {
         if (std::isinf(depth[i])) {
             output[i] = huira::RGB{1, 1, 1};
             continue;
         }
-        float d = 0.8f * (depth[i] - min_depth) / (max_depth - min_depth);
+        float d = (range > 0.f) ? 0.8f * (depth[i] - min_depth) / range : 0.f;
         output[i] = huira::RGB{d, d, d};
     }
     return output;
-- 
2.43.0


From d525f6f2358c700cca5ac75f9eacfc80fb8e481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 036/141] fix: FITS reader does not read past its pixel
 coordinates when NAXIS is above 2

---
 include/huira_impl/images/io/fits_io.ipp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index c6a3eba..c9e7a83 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -479,11 +479,18 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     const long npixels = static_cast<long>(width) * height;
     std::vector<float> buffer(static_cast<std::size_t>(npixels));
 
-    long fpixel[2] = {1, 1};
+    std::vector<long> fpixel(static_cast<std::size_t>(naxis), 1); // one entry per axis
     int anynul = 0;
 
     float undefined = std::numeric_limits<float>::quiet_NaN(); // for pixels equal to BLANK
-    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, &undefined, buffer.data(), &anynul, &status);
+    fits_read_pix(ff.fptr,
+                  TFLOAT,
+                  fpixel.data(),
+                  npixels,
+                  &undefined,
+                  buffer.data(),
+                  &anynul,
+                  &status);
     detail::fits_check(status, "read pixels");
 
     // --- Normalise integer data to [0, 1] ---
-- 
2.43.0


From badb2d0bf5e49feecea525935d382b0fd0924f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 037/141] fix: PNG reader keeps its buffers out of the function
 that setjmp can re-enter, and frees libpng's state if allocation fails

---
 include/huira_impl/images/io/png_io.ipp | 111 ++++++++++++++----------
 1 file changed, 67 insertions(+), 44 deletions(-)

diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index d2ec4a1..b1db4bd 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -130,53 +130,24 @@ static void png_warning_handler_(png_structp /*png_ptr*/, png_const_charp messag
 }
 
 /**
- * @brief Decodes a PNG from an in-memory buffer into raw byte data.
+ * @brief Decode a PNG into storage owned by the caller.
  *
- * Uses libpng with a custom read callback to decompress from memory.
- * Handles palette expansion, low bit depth expansion, tRNS alpha expansion,
- * and byte order normalization for 16-bit images.
+ * A libpng error returns here through longjmp: what this function modifies has to live in the
+ * caller's frame, where it still holds its values and is destroyed.
  *
- * @param data Pointer to the PNG data in memory
- * @param size Size of the data in bytes
- * @return Raw decoded data with resolution, color info, and pixel buffer
- * @throws std::runtime_error if the data is not a valid or supported PNG
+ * @return false if libpng reported an error
  */
-inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
+inline bool decode_png_(png_structp png_ptr,
+                        png_infop info_ptr,
+                        PngMemReadState_& read_state,
+                        PNGData& png_data,
+                        std::vector<png_bytep>& row_pointers)
 {
-    HUIRA_LOG_INFO("read_png_raw_ - Reading PNG from memory (" + std::to_string(size) + " bytes)");
-
-    if (size < 8) {
-        HUIRA_THROW_ERROR("read_png_raw_ - Data too small to be a valid PNG");
-    }
-
-    // Verify PNG signature
-    if (png_sig_cmp(data, 0, 8) != 0) {
-        HUIRA_THROW_ERROR("read_png_raw_ - Data is not a valid PNG (bad signature)");
-    }
-
-    png_structp png_ptr = png_create_read_struct(
-        PNG_LIBPNG_VER_STRING, nullptr, png_error_handler_, png_warning_handler_);
-    if (!png_ptr) {
-        HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG read struct");
-    }
-
-    png_infop info_ptr = png_create_info_struct(png_ptr);
-    if (!info_ptr) {
-        png_destroy_read_struct(&png_ptr, nullptr, nullptr);
-        HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG info struct");
-    }
-
-    // Declared before setjmp: a libpng error jumps out without running destructors
-    std::vector<png_byte> raw_data;
-    std::vector<png_bytep> row_pointers;
-
     if (setjmp(png_jmpbuf(png_ptr))) {
-        png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
-        HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
+        return false;
     }
 
     // Set up custom memory read
-    PngMemReadState_ read_state{data, size, 8}; // Skip past signature
     png_set_read_fn(png_ptr, &read_state, png_mem_read_callback_);
     png_set_sig_bytes(png_ptr, 8);
 
@@ -234,29 +205,81 @@ inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
     }
 
     std::size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
-    raw_data.resize(row_bytes * height);
+    png_data.raw_data.resize(row_bytes * height);
     row_pointers.resize(height);
 
     for (png_uint_32 y = 0; y < height; ++y) {
-        row_pointers[y] = raw_data.data() + y * row_bytes;
+        row_pointers[y] = png_data.raw_data.data() + y * row_bytes;
     }
 
     png_read_image(png_ptr, row_pointers.data());
     png_read_end(png_ptr, nullptr);
-    png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
 
-    PNGData png_data{};
     png_data.resolution = resolution;
     png_data.height = height;
     png_data.width = width;
     png_data.channels = channels;
-    png_data.raw_data = std::move(raw_data);
     png_data.row_bytes = row_bytes;
     png_data.color_info = color_info;
     png_data.final_bit_depth = final_bit_depth;
     png_data.has_alpha = has_alpha;
     png_data.is_gray = is_gray;
 
+    return true;
+}
+
+/**
+ * @brief Decodes a PNG from an in-memory buffer into raw byte data.
+ *
+ * Uses libpng with a custom read callback to decompress from memory.
+ * Handles palette expansion, low bit depth expansion, tRNS alpha expansion,
+ * and byte order normalization for 16-bit images.
+ *
+ * @param data Pointer to the PNG data in memory
+ * @param size Size of the data in bytes
+ * @return Raw decoded data with resolution, color info, and pixel buffer
+ * @throws std::runtime_error if the data is not a valid or supported PNG
+ */
+inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
+{
+    HUIRA_LOG_INFO("read_png_raw_ - Reading PNG from memory (" + std::to_string(size) + " bytes)");
+
+    if (size < 8) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Data too small to be a valid PNG");
+    }
+
+    // Verify PNG signature
+    if (png_sig_cmp(data, 0, 8) != 0) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Data is not a valid PNG (bad signature)");
+    }
+
+    png_structp png_ptr = png_create_read_struct(
+        PNG_LIBPNG_VER_STRING, nullptr, png_error_handler_, png_warning_handler_);
+    if (!png_ptr) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG read struct");
+    }
+
+    png_infop info_ptr = png_create_info_struct(png_ptr);
+    if (!info_ptr) {
+        png_destroy_read_struct(&png_ptr, nullptr, nullptr);
+        HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG info struct");
+    }
+
+    PngMemReadState_ read_state{data, size, 8}; // Skip past signature
+    PNGData png_data{};
+    std::vector<png_bytep> row_pointers;
+    bool decoded = false;
+    try {
+        decoded = decode_png_(png_ptr, info_ptr, read_state, png_data, row_pointers);
+    } catch (...) {
+        png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+        throw;
+    }
+    png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+    if (!decoded) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
+    }
+
     return png_data;
 }
 
-- 
2.43.0


From 74fd39326bb1515ab8c179ff68176539c2ef8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 038/141] fix: Tycho-2 readers have room for a last line
 without a new-line

---
 include/huira_impl/stars/io/load_tycho2.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 81c3769..471acd3 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -59,7 +59,7 @@ static bool is_valid_line_(const std::string& line)
 
 std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data(count_lines_(filepath) + 1); // last line may lack a new-line
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_dat - Failed to open file: " + filepath.string());
@@ -140,7 +140,7 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 
 std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data(count_lines_(filepath) + 1); // last line may lack a new-line
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to open file: " + filepath.string());
-- 
2.43.0


From 3ca49c3e560682d3db93bad34f2f16f7183cec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 039/141] fix: Tycho-2 readers do not carry values over from
 skipped lines

---
 include/huira_impl/stars/io/load_tycho2.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 471acd3..a4b64be 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -69,6 +69,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
     std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
+            star_data[i] = StarData{}; // drop what a skipped line left behind
+
             // Read identifer:
             int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
             int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
@@ -150,6 +152,8 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
     std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
+            star_data[i] = StarData{}; // drop what a skipped line left behind
+
             // Read identifer:
             int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
             int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-- 
2.43.0


From 6a5f43e10c6aa4ba88d4908baf603a2f7091f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 040/141] fix: Tycho-2 reader takes the observed position and
 its epoch from their columns

---
 include/huira_impl/stars/io/load_tycho2.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index a4b64be..74079ff 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -91,19 +91,19 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
             } else {
-                // Observed position at bytes 153-165 and 166-178
-                double RA = read_entry_(line, 153, 165);
-                double DEC = read_entry_(line, 166, 178);
+                // Observed position at bytes 153-164 and 166-177
+                double RA = read_entry_(line, 152, 164);
+                double DEC = read_entry_(line, 165, 177);
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
 
-                // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
+                // Epoch of observed position: epRA at bytes 179-182, epDE at 184-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
-                double epRA = read_entry_(line, 179, 183);
-                double epDE = read_entry_(line, 184, 188);
+                double epRA = read_entry_(line, 178, 182);
+                double epDE = read_entry_(line, 183, 187);
                 if (std::isnan(epRA) || std::isnan(epDE)) {
                     continue;
                 }
-- 
2.43.0


From 09cc28de69004c6fd8bf832cab3d58f3e62c093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 041/141] fix: star catalog reader rejects truncated files

---
 include/huira_impl/stars/io/star_catalog.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 30d9dac..59d3b4e 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -68,7 +68,7 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
     // Read and validate header
     HrscHeader header{};
     in.read(reinterpret_cast<char*>(&header), sizeof(header));
-    if (header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
+    if (!in || header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
         header.magic[3] != 'C') {
         HUIRA_THROW_ERROR("StarData - Invalid file format: " + filepath.string());
     }
@@ -80,6 +80,13 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
                           ").  Please re-generate.");
     }
 
+    // The announced stars have to be there
+    in.seekg(0, std::ios::end);
+    const auto file_size = static_cast<std::uint64_t>(in.tellg());
+    if (header.star_count > (file_size - sizeof(HrscHeader)) / sizeof(StarData)) {
+        HUIRA_THROW_ERROR("StarCatalog - Truncated file: " + filepath.string());
+    }
+
     // Binary search on file to find cutoff index
     std::uint64_t low = 0, high = header.star_count;
     StarData temp;
-- 
2.43.0


From 882ec234a95dd04adc912560e9ea1b8c4494cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 042/141] fix: star catalog writer reports a file it could not
 write completely

---
 include/huira_impl/stars/io/star_catalog.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 59d3b4e..7610e50 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -54,6 +54,11 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
     out.write(reinterpret_cast<const char*>(valid_stars.data()),
               static_cast<std::streamsize>(valid_stars.size() * sizeof(StarData)));
 
+    out.close();
+    if (!out) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to write file: " + filepath.string());
+    }
+
     HUIRA_LOG_INFO("StarCatalog - " + std::to_string(valid_stars.size()) +
                    " stars written to: " + filepath.string());
 }
-- 
2.43.0


From cc6cb625a82db77bf4de45b4f1d591f5643ce8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 043/141] fix: GGX distribution stays finite at the peak of
 nearly smooth surfaces

---
 include/huira/materials/sampling_utils.hpp                | 7 ++++---
 include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/huira/materials/sampling_utils.hpp b/include/huira/materials/sampling_utils.hpp
index 329b3aa..0095520 100644
--- a/include/huira/materials/sampling_utils.hpp
+++ b/include/huira/materials/sampling_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <numbers>
 
@@ -102,7 +103,7 @@ ggx_sample_half_vector(float u1, float u2, float roughness) noexcept
 
     const Vec3<float> h = {sin_theta * std::cos(phi), sin_theta * std::sin(phi), cos_theta};
 
-    const float denom = cos_theta2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom = cos_theta2 * alpha2 + (1.0f - cos_theta2);
     const float D = alpha2 / (std::numbers::pi_v<float> * denom * denom);
     const float pdf = D * cos_theta;
 
@@ -146,9 +147,9 @@ ggx_vndf_sample(const Vec3<float>& wo, float roughness, float u1, float u2) noex
         glm::normalize(Vec3<float>{alpha * Nh.x, alpha * Nh.y, std::max(0.0f, Nh.z)});
 
     const float cos_theta_h = h.z;
-    const float cos_theta_h2 = cos_theta_h * cos_theta_h;
+    const float cos_theta_h2 = std::min(cos_theta_h * cos_theta_h, 1.0f);
     const float alpha2 = alpha * alpha;
-    const float denom_D = cos_theta_h2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom_D = cos_theta_h2 * alpha2 + (1.0f - cos_theta_h2);
     const float D = alpha2 / (std::numbers::pi_v<float> * denom_D * denom_D);
 
     const float cos_theta_o = wo.z;
diff --git a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
index 756a47b..6d272f4 100644
--- a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
+++ b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
@@ -170,8 +170,9 @@ float CookTorranceBSDF<TSpectral>::pdf(const Vec3<float>& wo,
 template <IsSpectral TSpectral>
 float CookTorranceBSDF<TSpectral>::ggx_D(float n_dot_h, float alpha2) noexcept
 {
-    const float cos2 = n_dot_h * n_dot_h;
-    const float denom = cos2 * (alpha2 - 1.0f) + 1.0f;
+    // Not "cos2 * (alpha2 - 1) + 1", which rounds to zero at the peak of a nearly smooth surface
+    const float cos2 = std::min(n_dot_h * n_dot_h, 1.0f);
+    const float denom = cos2 * alpha2 + (1.0f - cos2);
     return alpha2 / (std::numbers::pi_v<float> * denom * denom);
 }
 
-- 
2.43.0


From a2adafe88d7d6b8493b764ea768e18f92b56b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 044/141] fix: sine-weighted hemisphere samples follow the
 density they report

---
 include/huira/materials/sampling_utils.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/huira/materials/sampling_utils.hpp b/include/huira/materials/sampling_utils.hpp
index 0095520..7d174b3 100644
--- a/include/huira/materials/sampling_utils.hpp
+++ b/include/huira/materials/sampling_utils.hpp
@@ -66,7 +66,16 @@ struct HemisphereSample {
  */
 [[nodiscard]] inline HemisphereSample sine_hemisphere(float u1, float u2) noexcept
 {
-    const float cos_theta = std::cbrt(1.0f - u1);
+    // theta has density proportional to sin^2(theta): solve theta - sin(theta) cos(theta) = u1 * pi/2
+    const float target = 0.5f * std::numbers::pi_v<float> * u1;
+    float theta = std::cbrt(1.5f * target);
+    for (int i = 0; i < 4; ++i) {
+        const float s = std::sin(theta);
+        if (s > 0.0f) {
+            theta -= (theta - s * std::cos(theta) - target) / (2.0f * s * s);
+        }
+    }
+    const float cos_theta = std::max(0.0f, std::cos(theta));
     const float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta * cos_theta));
     const float phi = 2.0f * std::numbers::pi_v<float> * u2;
 
-- 
2.43.0


From 2d9e5a3f9c50d364c26f6465400020c79246eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 045/141] fix: a ray that leaves overlapping media in any order
 is no longer inside them

---
 include/huira/volumes/medium_stack.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/huira/volumes/medium_stack.hpp b/include/huira/volumes/medium_stack.hpp
index 3c952a0..57f69f7 100644
--- a/include/huira/volumes/medium_stack.hpp
+++ b/include/huira/volumes/medium_stack.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cstddef>
 
@@ -53,9 +54,18 @@ class MediumStack {
             return;
         }
 
-        if (size_ > 0 && entries_[size_ - 1].primitive == primitive) {
-            --size_;
-        } else if (size_ < CAPACITY) {
+        // Overlapping volumes need not be left in the reverse of the order they were entered in
+        for (std::size_t i = size_; i-- > 0;) {
+            if (entries_[i].primitive == primitive) {
+                std::move(entries_.begin() + static_cast<std::ptrdiff_t>(i) + 1,
+                          entries_.begin() + static_cast<std::ptrdiff_t>(size_),
+                          entries_.begin() + static_cast<std::ptrdiff_t>(i));
+                --size_;
+                return;
+            }
+        }
+
+        if (size_ < CAPACITY) {
             entries_[size_] = {primitive, medium};
             ++size_;
         }
-- 
2.43.0


From 50650f2dae56cade1e6dff8c044c0b5331294f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 046/141] fix: offsetting an intersection at a coordinate of -0
 does not overflow

---
 include/huira_impl/render/interaction.ipp | 28 ++++++++---------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/include/huira_impl/render/interaction.ipp b/include/huira_impl/render/interaction.ipp
index ca9889c..5004307 100644
--- a/include/huira_impl/render/interaction.ipp
+++ b/include/huira_impl/render/interaction.ipp
@@ -118,24 +118,16 @@ inline Vec3<T> offset_intersection_(Vec3<T> intersection, const Vec3<T>& N)
 {
     using IntType = std::conditional_t<std::is_same_v<T, float>, int32_t, int64_t>;
 
-    std::array<IntType, 3> offset_int{static_cast<IntType>(int_scale<T>() * N.x),
-                                      static_cast<IntType>(int_scale<T>() * N.y),
-                                      static_cast<IntType>(int_scale<T>() * N.z)};
+    const auto offset = [](T p, T n) -> T {
+        if (std::abs(p) < origin<T>()) {
+            return p + float_scale<T>() * n;
+        }
+        const IntType offset_int = static_cast<IntType>(int_scale<T>() * n);
+        return int_as_float(float_as_int(p) + (p < 0 ? -offset_int : offset_int));
+    };
 
-    const Vec3<T> offset_result{
-        int_as_float(float_as_int(intersection.x) +
-                     (intersection.x < 0 ? -offset_int[0] : offset_int[0])),
-        int_as_float(float_as_int(intersection.y) +
-                     (intersection.y < 0 ? -offset_int[1] : offset_int[1])),
-        int_as_float(float_as_int(intersection.z) +
-                     (intersection.z < 0 ? -offset_int[2] : offset_int[2]))};
-
-    const T threshold = origin<T>();
-    const T scale = float_scale<T>();
-
-    return Vec3<T>{
-        std::abs(intersection.x) < threshold ? intersection.x + scale * N.x : offset_result.x,
-        std::abs(intersection.y) < threshold ? intersection.y + scale * N.y : offset_result.y,
-        std::abs(intersection.z) < threshold ? intersection.z + scale * N.z : offset_result.z};
+    return Vec3<T>{offset(intersection.x, N.x),
+                   offset(intersection.y, N.y),
+                   offset(intersection.z, N.z)};
 }
 } // namespace huira
-- 
2.43.0


From 8da30901262d22a3d9b729d8f0a40ffc4cfacf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 047/141] fix: surfaces without tangents get a shading frame
 that is not NaN

---
 include/huira_impl/materials/material.ipp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/materials/material.ipp b/include/huira_impl/materials/material.ipp
index cc88999..168dc37 100644
--- a/include/huira_impl/materials/material.ipp
+++ b/include/huira_impl/materials/material.ipp
@@ -54,9 +54,17 @@ MaterialEval<TSpectral> Material<TSpectral>::evaluate(const Interaction<TSpectra
     }
 
     // Keep the original tangent/bitangent, just orthogonalize against new normal
-    shading_isect.tangent = glm::normalize(
-        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s);
-    shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    const Vec3<float> tangent =
+        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s;
+    const float tangent_length = glm::length(tangent);
+    if (tangent_length > 0.0f) {
+        shading_isect.tangent = tangent / tangent_length;
+        shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    } else {
+        // The geometry has no tangents
+        build_default_tangent_frame(
+            shading_isect.normal_s, shading_isect.tangent, shading_isect.bitangent);
+    }
 
     MaterialEval<TSpectral> result{};
     result.params = params;
-- 
2.43.0


From f3166dcabbf6745de25a815eb33d23b65529e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 048/141] fix: tangent rays that start on an ellipsoid do not
 hit it at NaN

---
 include/huira_impl/geometry/ellipsoid.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 030b8a0..7d8e99a 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -139,8 +139,9 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
     // A lambda allows us to cleanly test t0, and if rejected by alpha, test t1
     auto test_hit = [&](float t_candidate) -> bool {
-        if (t_candidate < RTCRayN_tnear(ray, args->N, 0) ||
-            t_candidate > RTCRayN_tfar(ray, args->N, 0)) {
+        // Written so that a NaN (a tangent ray that starts on the surface) is no hit either
+        if (!(t_candidate >= RTCRayN_tnear(ray, args->N, 0) &&
+              t_candidate <= RTCRayN_tfar(ray, args->N, 0))) {
             return false;
         }
 
-- 
2.43.0


From 6fbd28e39ea525eb637148e4af2f85d62c6de13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 049/141] fix: a filtered-out ellipsoid hit leaves the ray's
 hit record as it was

---
 include/huira_impl/geometry/ellipsoid.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 7d8e99a..4e8251b 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -145,8 +145,9 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
             return false;
         }
 
-        // Save original tfar in case the filter rejects this hit
+        // Save the ray's state in case the filter rejects this hit
         float old_tfar = RTCRayN_tfar(ray, args->N, 0);
+        RTCHit old_hit = rtcGetHitFromHitN(hit, args->N, 0);
         RTCRayN_tfar(ray, args->N, 0) = t_candidate;
 
         float t_u = t_candidate * L;
@@ -183,6 +184,7 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
         if (filter_valid == 0) {
             RTCRayN_tfar(ray, args->N, 0) = old_tfar; // Restore ray extent
+            rtcCopyHitToHitN(hit, &old_hit, args->N, 0);
             return false;
         }
         return true;
-- 
2.43.0


From 8a7fe53a64a51f10b4477777cb909ced72e6501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 050/141] fix: tangents of small ellipsoids are orthogonal to
 the normal

---
 include/huira_impl/geometry/ellipsoid.ipp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 4e8251b..04e5d67 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -33,12 +33,9 @@ void Ellipsoid<TSpectral>::compute_surface_interaction(const HitRecord& hit,
     isect.normal_s = isect.normal_g;
 
     // Compute Tangent Frame using partials
-    Vec3<float> dpdu = {-radii_.x * sin_theta * sin_phi, radii_.y * sin_theta * cos_phi, 0.0f};
+    // (divided by sin(theta), so that there is no singularity at the poles, nor for small radii)
+    Vec3<float> dpdu = {-radii_.x * sin_phi, radii_.y * cos_phi, 0.0f};
 
-    // Handle singularity at the poles
-    if (glm::dot(dpdu, dpdu) < 1e-8f) {
-        dpdu = {1.0f, 0.0f, 0.0f};
-    }
 
     isect.tangent = glm::normalize(dpdu);
     isect.bitangent = glm::normalize(glm::cross(isect.normal_g, isect.tangent));
-- 
2.43.0


From 51a9d8703b5458fed8b1212b1798e23a5f14befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 051/141] fix: cubic trajectory arcs no longer lose plane
 crossings

---
 include/huira_impl/render/trajectory_arc.ipp | 76 +++++---------------
 1 file changed, 16 insertions(+), 60 deletions(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 769d5bd..800cdc0 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -309,7 +309,8 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
 /**
  * @brief Solve a*t^3 + b*t^2 + c*t + d = 0 for roots in [t_min, t_max].
  *
- * Uses the depressed cubic (Cardano's method) for analytic solution.
+ * Between its extrema the cubic is monotonic, so every sign change brackets exactly one root.
+ * Unlike the closed form this stays accurate when a is tiny, as it is for nearly straight arcs.
  */
 std::vector<float>
 TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, float t_max)
@@ -320,72 +321,27 @@ TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, flo
         return solve_quadratic_(b, c, d, t_min, t_max);
     }
 
-    float p = b / a;
-    float q = c / a;
-    float r = d / a;
+    std::vector<float> bounds = solve_quadratic_(3.0f * a, 2.0f * b, c, t_min, t_max);
+    bounds.insert(bounds.begin(), t_min);
+    bounds.push_back(t_max);
 
-    float p2 = p * p;
-    float A = q - p2 / 3.0f;
-    float B = r - p * q / 3.0f + 2.0f * p2 * p / 27.0f;
-
-    float discriminant = -4.0f * A * A * A - 27.0f * B * B;
+    const auto f = [&](float t) { return d + t * (c + t * (b + t * a)); };
 
     std::vector<float> roots;
-    float offset = -p / 3.0f;
-
-    if (discriminant > eps) {
-        float m = 2.0f * std::sqrt(-A / 3.0f);
-        float theta = std::acos(3.0f * B / (A * m)) / 3.0f;
-
-        for (int k = 0; k < 3; ++k) {
-            float u = m * std::cos(theta - 2.0f * PI<float>() * static_cast<float>(k) / 3.0f);
-            float t = u + offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
-        }
-    } else if (discriminant < -eps) {
-        float sqrtQ3 = std::sqrt(-A / 3.0f);
-        float cosh_val = std::abs(B) / (sqrtQ3 * sqrtQ3 * sqrtQ3) * 1.5f;
-
-        float u;
-        if (A < 0.0f) {
-            float acosh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val - 1.0f));
-            u = -2.0f * std::copysign(sqrtQ3, B) * std::cosh(acosh_val / 3.0f);
-        } else {
-            float asinh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val + 1.0f));
-            u = -2.0f * std::copysign(std::sqrt(A / 3.0f), B) * std::sinh(asinh_val / 3.0f);
+    for (std::size_t i = 0; i + 1 < bounds.size(); ++i) {
+        float lo = bounds[i];
+        float hi = bounds[i + 1];
+        const bool lo_negative = f(lo) < 0.0f;
+        if (lo_negative == (f(hi) < 0.0f)) {
+            continue;
         }
 
-        float t = u + offset;
-        if (t >= t_min - eps && t <= t_max + eps) {
-            roots.push_back(std::clamp(t, t_min, t_max));
-        }
-    } else {
-        if (std::abs(B) < eps) {
-            float t = offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
-        } else {
-            float u1 = 3.0f * B / A;
-            float u2 = -u1 / 2.0f;
-
-            float t1 = u1 + offset;
-            float t2 = u2 + offset;
-
-            if (t1 >= t_min - eps && t1 <= t_max + eps) {
-                roots.push_back(std::clamp(t1, t_min, t_max));
-            }
-            if (t2 >= t_min - eps && t2 <= t_max + eps) {
-                if (roots.empty() || std::abs(t2 - roots.back()) > eps) {
-                    roots.push_back(std::clamp(t2, t_min, t_max));
-                }
-            }
+        // Bisect down to neighboring floats:
+        for (float mid = 0.5f * (lo + hi); mid > lo && mid < hi; mid = 0.5f * (lo + hi)) {
+            ((f(mid) < 0.0f) == lo_negative ? lo : hi) = mid;
         }
+        roots.push_back(hi);
     }
-
-    std::sort(roots.begin(), roots.end());
     return roots;
 }
 
-- 
2.43.0


From d800b8c68b820627d2ec38c9d3b0cc7f323b6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 052/141] fix: slow quadratic arcs do not take two crossings
 for a double one

---
 include/huira_impl/render/trajectory_arc.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 800cdc0..e4fb360 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -279,7 +279,7 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
     }
 
     std::vector<float> roots;
-    if (discriminant < eps) {
+    if (discriminant <= 0.0f) {
         float t = -b / (2.0f * a);
         if (t >= t_min - eps && t <= t_max + eps) {
             roots.push_back(std::clamp(t, t_min, t_max));
-- 
2.43.0


From edf6a13ce3e2e0104d1a109e1bca29b854763a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 053/141] fix: trajectory arc crossings at a spline knot are
 not lost

---
 include/huira_impl/render/trajectory_arc.ipp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index e4fb360..ced15b7 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -223,6 +223,7 @@ std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>&
 std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& normal) const
 {
     std::vector<float> all_roots;
+    bool was_negative = false;
 
     for (std::size_t i = 0; i < segments_.size(); ++i) {
         const auto& s = segments_[i];
@@ -235,6 +236,12 @@ std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& norm
 
         auto roots = solve_cubic_(a, b, c, d, 0.0f, h);
 
+        // A crossing at the knot itself may fall between the rounded ends of both segments:
+        if (i > 0 && was_negative != (d < 0.0f)) {
+            roots.insert(roots.begin(), 0.0f);
+        }
+        was_negative = d + h * (c + h * (b + h * a)) < 0.0f;
+
         for (float u : roots) {
             float t = knots_[i] + u;
             if (all_roots.empty() || std::abs(t - all_roots.back()) > 1e-6f) {
@@ -315,12 +322,6 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
 std::vector<float>
 TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, float t_max)
 {
-    constexpr float eps = 1e-10f;
-
-    if (std::abs(a) < eps) {
-        return solve_quadratic_(b, c, d, t_min, t_max);
-    }
-
     std::vector<float> bounds = solve_quadratic_(3.0f * a, 2.0f * b, c, t_min, t_max);
     bounds.insert(bounds.begin(), t_min);
     bounds.push_back(t_max);
-- 
2.43.0


From 90007a2bc90ce196bbe975244adfa94c0c7b5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 054/141] fix: OpenCV distortion no longer adds the undistorted
 point twice

---
 include/huira_impl/cameras/distortion/opencv_distortion.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/distortion/opencv_distortion.ipp b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
index 6040246..23b58ff 100644
--- a/include/huira_impl/cameras/distortion/opencv_distortion.ipp
+++ b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
@@ -71,7 +71,7 @@ OpenCVDistortion<TSpectral>::compute_delta_(BasePixel<TFloat> homogeneous_coords
             static_cast<TFloat>(coefficients_.s3) * r2 +
             static_cast<TFloat>(coefficients_.s4) * r4};
 
-    return radial_factor * homogeneous_coords_tf + tangential_and_prism;
+    return (radial_factor - TFloat{1}) * homogeneous_coords_tf + tangential_and_prism;
 }
 
 /**
-- 
2.43.0


From da23637c3da1e6d008305edcb291c339d047a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 055/141] fix: PSF kernels keep the light of edge pixels in all
 banks

---
 include/huira_impl/cameras/psfs/psf.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/psfs/psf.ipp b/include/huira_impl/cameras/psfs/psf.ipp
index d1ba086..3a94160 100644
--- a/include/huira_impl/cameras/psfs/psf.ipp
+++ b/include/huira_impl/cameras/psfs/psf.ipp
@@ -80,7 +80,8 @@ void PSF<TSpectral>::generate_polyphase_data_()
     std::vector<TSpectral> lut_data(static_cast<std::size_t>(lut_res) *
                                     static_cast<std::size_t>(lut_res));
 
-    float max_radius = static_cast<float>(cache_.radius) + 1.0f;
+    // The outermost pixel reaches radius + 0.5, and bank offsets shift it by up to one more pixel
+    float max_radius = static_cast<float>(cache_.radius) + 1.5f;
     float lut_scale_inv = 1.0f / static_cast<float>(lut_res - 1);
 
     tbb::parallel_for(
-- 
2.43.0


From 160b23f4f5eb4e0d54cf4015c0fae94c42b1b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 056/141] fix: direct and indirect received power have frame
 buffers of their own

---
 include/huira/render/frame_buffer.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4e2c499..4c21321 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -52,17 +52,17 @@ class FrameBuffer {
 
     void enable_received_direct_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_direct_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_direct_power() { return received_power_; }
-    bool has_received_direct_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_direct_power() { return received_direct_power_; }
+    bool has_received_direct_power() const { return has_(received_direct_power_); }
 
     void enable_received_indirect_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_indirect_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_indirect_power() { return received_power_; }
-    bool has_received_indirect_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_indirect_power() { return received_indirect_power_; }
+    bool has_received_indirect_power() const { return has_(received_indirect_power_); }
 
     void enable_received_power(bool enable = true)
     {
@@ -96,6 +96,12 @@ class FrameBuffer {
         if (has_world_normals()) {
             world_normals_.fill(Vec3<float>{0, 0, 0});
         }
+        if (has_received_direct_power()) {
+            received_direct_power_.fill(TSpectral{0});
+        }
+        if (has_received_indirect_power()) {
+            received_indirect_power_.fill(TSpectral{0});
+        }
         if (has_received_power()) {
             received_power_.fill(TSpectral{0});
         }
@@ -115,6 +121,8 @@ class FrameBuffer {
     Image<Vec3<float>> camera_normals_;
     Image<Vec3<float>> world_normals_;
 
+    Image<TSpectral> received_direct_power_;
+    Image<TSpectral> received_indirect_power_;
     Image<TSpectral> received_power_;
     Image<SensorT> sensor_response_;
 
-- 
2.43.0


From 1de4a2a209cb90f1e56328fb8121a665be97f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 057/141] fix: disabling the sensor response keeps the received
 power

---
 include/huira/render/frame_buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4c21321..98e7bff 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -73,7 +73,9 @@ class FrameBuffer {
 
     void enable_sensor_response(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable); // Sensor response requires received power
+        if (enable) { // Sensor response requires received power
+            enable_(received_power_, TSpectral{0}, true);
+        }
         enable_(sensor_response_, SensorT{}, enable);
     }
     Image<SensorT>& sensor_response() { return sensor_response_; }
-- 
2.43.0


From 28190bde1e756b47db29db59c83db8678603c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 058/141] fix: sensor readout does not write to a frame buffer
 without sensor response

---
 include/huira_impl/cameras/sensors/simple_sensor.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 737dc77..0d61888 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -65,6 +65,10 @@ inline float noise_and_adc(float signal_e,
 template <IsSpectral TSpectral>
 void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second exposure_time) const
 {
+    if (!fb.has_sensor_response()) {
+        return;
+    }
+
     Image<TSpectral>& received_power = fb.received_power();
     auto& output = fb.sensor_response();
     output.set_sensor_bit_depth(this->config_.bit_depth);
-- 
2.43.0


From bcb0ba475eb03e7cfcf7afd4db88d82273ef364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 059/141] fix: sensors reject a pixel pitch that is not finite

---
 include/huira_impl/cameras/sensors/sensor_model.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/sensors/sensor_model.ipp b/include/huira_impl/cameras/sensors/sensor_model.ipp
index ae6993f..109656f 100644
--- a/include/huira_impl/cameras/sensors/sensor_model.ipp
+++ b/include/huira_impl/cameras/sensors/sensor_model.ipp
@@ -19,7 +19,9 @@ SensorModel<TSpectral>::SensorModel(SensorConfig<TSpectral> config) : config_{co
                           std::to_string(config.resolution.y));
     }
 
-    if (config.pitch_x.to_si() <= 0 || config.pitch_y.to_si() <= 0) {
+    if (config.pitch_x.to_si() <= 0 || std::isinf(config.pitch_x.to_si()) ||
+        std::isnan(config.pitch_x.to_si()) || config.pitch_y.to_si() <= 0 ||
+        std::isinf(config.pitch_y.to_si()) || std::isnan(config.pitch_y.to_si())) {
         HUIRA_THROW_ERROR("SensorModel::SensorModel - Pixel pitch must be positive: " +
                           std::to_string(config.pitch_x.to_si()) + "m x " +
                           std::to_string(config.pitch_y.to_si()) + "m");
-- 
2.43.0


From 4a8ba91a282fb24ba8bd6e998ad2666877adfb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 060/141] fix: sphere lights sample small cones and report
 their density without cancellation

---
 .../huira_impl/assets/lights/sphere_light.ipp | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 1a7bd93..13d1e76 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -104,13 +104,16 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
     // Calculate the cone subtended by the sphere
     float sin_theta_max2 = (radius_ * radius_) / d2;
     float cos_theta_max = std::sqrt(std::max(0.0f, 1.0f - sin_theta_max2));
+    // 1 - cos(theta_max), without the cancellation of the subtraction for small cones
+    float one_minus_cos_max = sin_theta_max2 / (1.0f + cos_theta_max);
 
     // Uniformly sample the cone
     float u1 = sampler.get_1d();
     float u2 = sampler.get_1d();
 
-    float cos_theta = (1.0f - u1) + u1 * cos_theta_max;
-    float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta * cos_theta));
+    float one_minus_cos = u1 * one_minus_cos_max;
+    float cos_theta = 1.0f - one_minus_cos;
+    float sin_theta = std::sqrt(std::max(0.0f, one_minus_cos * (1.0f + cos_theta)));
     float phi = u2 * 2.0f * PI<float>();
 
     // Build a local coordinate system around the vector to the center (wc)
@@ -128,13 +131,7 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
         u * (sin_theta * std::cos(phi)) + v * (sin_theta * std::sin(phi)) + w * cos_theta;
 
     // Calculate Solid Angle and PDF
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-
-    // Robustness fallback for tiny spheres or immense distances
-    // to prevent catastrophic cancellation in floating point math
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
+    float solid_angle = 2.0f * PI<float>() * one_minus_cos_max;
 
     // Calculate distance to the sphere surface along wi using standard ray-sphere intersection:
     float b = glm::dot(wc, wi);
@@ -168,16 +165,15 @@ float SphereLight<TSpectral>::pdf_li(const Interaction<TSpectral>& isect,
     float cos_theta_max = std::sqrt(std::max(0.0f, 1.0f - sin_theta_max2));
 
     // Check if the given direction `wi` actually hits the sphere cone
-    float cos_theta = glm::dot(wi, glm::normalize(wc));
-    if (cos_theta < cos_theta_max) {
+    Vec3<float> w = glm::normalize(wc);
+    Vec3<float> c = glm::cross(wi, w);
+    if (glm::dot(wi, w) <= 0.0f || glm::dot(c, c) > sin_theta_max2) {
         return 0.0f; // Ray missed the sphere
     }
 
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
-
+    // 1 - cos(theta_max), without the cancellation of the subtraction for small cones
+    float one_minus_cos_max = sin_theta_max2 / (1.0f + cos_theta_max);
+    float solid_angle = 2.0f * PI<float>() * one_minus_cos_max;
     return 1.0f / solid_angle;
 }
 
-- 
2.43.0


From 2edd1b6ec2c328caa34e5bc7daae78d3b1f47fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 061/141] fix: a sphere light of a total power emits that power
 over its spectrum

---
 include/huira_impl/assets/lights/sphere_light.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 13d1e76..0d121f8 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -72,7 +72,7 @@ void SphereLight<TSpectral>::set_spectral_power(const units::Watt& power)
 
     // L = Phi / (4 * pi^2 * r^2)
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
-    this->radiance_ = TSpectral{power_si / (PI<float>() * surface_area)};
+    this->radiance_ = TSpectral::from_total(power_si) / (PI<float>() * surface_area);
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From 41129bb50a7cf92471e489a60156bdd473f29a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 062/141] fix: renaming an object to its own name keeps the
 name

---
 include/huira_impl/scene/name_registry.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 7ebb185..00265ff 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -57,13 +57,14 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
 template <typename T>
 void NameRegistry<T>::set_name(std::shared_ptr<T> object, std::string name)
 {
-    std::string new_name = make_unique_name_(name);
     std::string old_name = object->name();
 
-    if (new_name == old_name) {
+    if (name == old_name) {
         return;
     }
 
+    std::string new_name = make_unique_name_(name);
+
     name_registry_.erase(old_name);
     name_registry_[new_name] = object;
     object->name_ = new_name;
-- 
2.43.0


From 124c30bffa1b7cfc2923cc3aa43dd7e3af1fafeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 063/141] fix: a crash with the crash handler disabled ends the
 process

---
 include/huira_impl/util/logger.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 7338960..c3ebc7e 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -409,6 +409,9 @@ void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
+        // Not handled: leave the crash to the default handler
+        std::signal(signal, SIG_DFL);
+        std::raise(signal);
         return;
     }
     // Only print crash report once
-- 
2.43.0


From 00c3145e1f8e176638383fdd51bdfdf3c05ac7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 064/141] fix: concurrent logging does not corrupt the log
 buffer or the sink

---
 include/huira/util/logger.hpp      |  6 +++++-
 include/huira_impl/util/logger.ipp | 24 ++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index 877465d..e0d8249 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 #include <thread>
@@ -61,7 +62,7 @@ struct LogEntry {
  * - Per-level console output configuration
  * - Cross-platform crash reporting (signals and SEH)
  *
- * The logger is thread-safe and uses lock-free atomic operations for performance.
+ * The logger is thread-safe.
  * Log entries are stored in a circular buffer and can be dumped to a file on demand
  * or automatically during crashes.
  */
@@ -123,6 +124,9 @@ class Logger {
     std::atomic<bool> console_warning_;
     CustomSink custom_sink_;
 
+    // Guards buffer_ and custom_sink_. Recursive: a crash while logging logs from the same thread.
+    mutable std::recursive_mutex mutex_;
+
     // Ensures only one crash report is printed per process
     static std::atomic<bool> crash_reported_;
 };
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index c3ebc7e..30e0fae 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -138,6 +138,8 @@ void Logger::set_buffer_size(size_t size)
     }
     std::vector<LogEntry> new_buffer(size);
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+
     // Copy existing entries
     size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
     size_t old_size = instance().buffer_.size();
@@ -159,6 +161,7 @@ void Logger::set_buffer_size(size_t size)
  */
 size_t Logger::get_buffer_size()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     return instance().buffer_.size();
 }
 
@@ -172,6 +175,7 @@ size_t Logger::get_buffer_size()
  */
 void Logger::set_custom_sink(CustomSink sink)
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = std::move(sink);
 }
 
@@ -180,6 +184,7 @@ void Logger::set_custom_sink(CustomSink sink)
  */
 void Logger::clear_custom_sink()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = nullptr;
 }
 
@@ -200,15 +205,21 @@ void Logger::log(LogLevel level, const std::string& message)
 
     LogEntry entry{std::chrono::system_clock::now(), level, message, std::this_thread::get_id()};
 
-    // Add to circular buffer
-    size_t index =
-        instance().write_index_.fetch_add(1, std::memory_order_relaxed) % instance().buffer_.size();
-    instance().buffer_[index] = entry;
+    CustomSink sink;
+    {
+        std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+
+        // Add to circular buffer
+        size_t index = instance().write_index_.fetch_add(1, std::memory_order_relaxed) %
+                       instance().buffer_.size();
+        instance().buffer_[index] = entry;
+        sink = instance().custom_sink_;
+    }
 
     // Call custom sink if set
-    if (instance().custom_sink_) {
+    if (sink) {
         try {
-            instance().custom_sink_(entry);
+            sink(entry);
         } catch (...) {
             // Ignore exceptions from custom sink to prevent logging from crashing
         }
@@ -253,6 +264,7 @@ std::string Logger::dump_to_file(const std::string& filepath)
     file << "=========\n\n";
     file << "Platform: " << platform_str << " | Compiler: " << compiler_str << "\n\n";
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
     size_t total_entries = std::min(current_write, instance().buffer_.size());
     size_t start_index =
-- 
2.43.0


From c14a5f8242e1ff49d9d37e19c491831e78a2bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 065/141] fix: SPICE angular velocities stay in the frame SPICE
 gives them in

---
 include/huira_impl/core/spice.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 72fd408..8e1e49a 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -357,12 +357,12 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
                             static_cast<T>(matrix[1][2]),
                             static_cast<T>(matrix[2][2])};
 
-    huira::Vec3<T> ang_vel_local{static_cast<T>(angular_velocity[0]),
-                                 static_cast<T>(angular_velocity[1]),
-                                 static_cast<T>(angular_velocity[2])};
+    // xf2rav expresses the angular velocity in the FROM (parent) frame:
+    huira::Vec3<T> ang_vel_parent{static_cast<T>(angular_velocity[0]),
+                                  static_cast<T>(angular_velocity[1]),
+                                  static_cast<T>(angular_velocity[2])};
 
     Rotation<T> rotation_obj = huira::Rotation<T>::from_parent_to_local(rotation);
-    huira::Vec3<T> ang_vel_parent = rotation_obj * ang_vel_local;
 
     // SPICE represents tha passive rotation of parent-to-local:
     return {rotation_obj, ang_vel_parent};
-- 
2.43.0


From de8a3d9c4e1a491e61da30a1ec192541db6afed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 066/141] fix: conic orbits have the semi-major axis they are
 given

---
 include/huira_impl/core/spice.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 8e1e49a..b09cddb 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -390,7 +390,11 @@ inline std::pair<Vec3<T>, Vec3<T>> conics(const std::array<double, 8>& elements,
     SpiceDouble et = time.et();
     SpiceDouble state[6];
 
-    call_spice(conics_c, elements.data(), et, state);
+    // SPICE wants the periapsis distance in place of the semi-major axis:
+    std::array<SpiceDouble, 8> spice_elements = elements;
+    spice_elements[0] = elements[0] * (1.0 - elements[1]);
+
+    call_spice(conics_c, spice_elements.data(), et, state);
 
     Vec3<T> position_km{
         static_cast<T>(state[0]), static_cast<T>(state[1]), static_cast<T>(state[2])};
-- 
2.43.0


From ae690d4ca235f6c6fd4803faf754aeb479533579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 067/141] fix: SPICE is used by one thread at a time

---
 include/huira_impl/core/spice.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index b09cddb..d125c60 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -35,9 +35,14 @@ inline void check_spice_error()
     HUIRA_THROW_ERROR(error);
 }
 
+/// CSPICE keeps global state, so only one thread may use it at a time.
+inline std::recursive_mutex spice_mutex;
+
 template <typename Func, typename... Args>
 auto call_spice(Func func, Args&&... args)
 {
+    std::lock_guard<std::recursive_mutex> lock(spice_mutex);
+
     // Initialize error handling on first call
     static bool initialized = []() {
         SpiceChar action[] = "RETURN";
@@ -100,6 +105,7 @@ inline void furnsh_relative_to_file(const fs::path& kernel_path)
         ~DirectoryGuard() { fs::current_path(original); }
     };
 
+    std::lock_guard<std::recursive_mutex> lock(spice_mutex);
     DirectoryGuard guard;
     fs::current_path(kernel_path.parent_path());
     call_spice([&]() { furnsh_c(kernel_path.filename().string().c_str()); });
@@ -128,6 +134,8 @@ inline void ensure_lsk_loaded()
         return;
     }
     std::call_once(lsk_init_flag, []() {
+        std::lock_guard<std::recursive_mutex> lock(spice_mutex);
+
         // Save current error action and set to RETURN mode
         SpiceChar oldAction[16];
         erract_c("GET", sizeof(oldAction), oldAction);
@@ -344,7 +352,7 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
     call_spice(sxform_c, FROM.c_str(), TO.c_str(), et, state_xform);
 
     // Extract rotation matrix and angular velocity vector
-    xf2rav_c(state_xform, matrix, angular_velocity);
+    call_spice([&]() { xf2rav_c(state_xform, matrix, angular_velocity); });
 
     // SPICE returns row-major, huira::Mat3 is column-major
     huira::Mat3<T> rotation{static_cast<T>(matrix[0][0]),
-- 
2.43.0


From c8106ffe8950d3ff2c19fdf0c18321d73dc23b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 068/141] fix: body rates turn a node's angular velocity with
 it

---
 include/huira_impl/scene/node.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5bc5ba2..dfeef59 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -566,7 +566,9 @@ Node<TSpectral>::get_local_rotation_at_(const Time& epoch, const Time& t_obs, do
             }
         }
 
-        local_transform_at_time.angular_velocity = local_transform_.angular_velocity;
+        // Angular velocities are given in the parent frame
+        local_transform_at_time.angular_velocity =
+            body_frame_rates_ ? local_transform_.rotation * omega : omega;
     } else {
         // This is not expected to happen since the setters should prevent it
         HUIRA_THROW_ERROR("get_local_rotation_at_ - Unknown rotation_mode_");
-- 
2.43.0


From 2d0a14f976c9103745de0730c84d75accd5cfe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 069/141] fix: set_angular_velocity ends body rates in both its
 forms

---
 include/huira_impl/scene/node.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index dfeef59..520d5b9 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -161,6 +161,7 @@ void Node<TSpectral>::set_angular_velocity(const Vec3<double>& angular_velocity)
     }
 
     this->local_transform_.angular_velocity = angular_velocity;
+    this->body_frame_rates_ = false;
 }
 
 /**
-- 
2.43.0


From a023bebe5077763887b9109ec615b9a3fca6b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 070/141] fix: the getters of a node's rotation look at its
 rotation mode

---
 include/huira_impl/scene/node.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 520d5b9..7203fa2 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -590,7 +590,7 @@ Vec3<double> Node<TSpectral>::get_static_position() const
 template <IsSpectral TSpectral>
 Rotation<double> Node<TSpectral>::get_static_rotation() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static rotation when rotation mode is not MANUAL_TRANSFORM");
@@ -615,7 +615,7 @@ Vec3<double> Node<TSpectral>::get_static_velocity() const
 template <IsSpectral TSpectral>
 Vec3<double> Node<TSpectral>::get_static_angular_velocity() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static angular velocity when rotation mode is not MANUAL_TRANSFORM");
@@ -636,7 +636,7 @@ std::string Node<TSpectral>::get_spice_origin() const
 template <IsSpectral TSpectral>
 std::string Node<TSpectral>::get_spice_frame() const
 {
-    if (position_mode_ != TransformMode::SPICE_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::SPICE_TRANSFORM) {
         HUIRA_THROW_ERROR(this->get_info() +
                           " - cannot get spice frame when rotation mode is not SPICE_TRANSFORM");
     }
-- 
2.43.0


From 4df8e150fda26f890a6346a2ff2ab2f25e458160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 071/141] fix: set_manual_transform makes a node manual

---
 include/huira_impl/scene/node.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 7203fa2..2927716 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -224,6 +224,10 @@ void Node<TSpectral>::set_manual_transform(const Transform<double>& transform)
 
     this->local_transform_ = transform;
     this->body_frame_rates_ = false;
+    this->position_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->rotation_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->spice_origin_ = "";
+    this->spice_frame_ = "";
 }
 
 /**
-- 
2.43.0


From 93286e7b6d19059311405a0b404ce60c6891c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 072/141] fix: SPICE states are relative to a moving or scaled
 parent

---
 include/huira_impl/scene/node.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 2927716..5433819 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -474,9 +474,9 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         // Convert SPICE SSB result to local frame
         auto [pos, vel, _] =
             spice::spkezr<double>(this->spice_origin_, t_emit, "J2000", "NONE", "SSB");
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.position = parent_inv.apply_to_point(pos);
-        local.velocity = parent_inv.apply_to_direction(vel);
+        const Rotation<double> to_parent = parent_ssb.rotation.inverse();
+        local.position = (to_parent * (pos - parent_ssb.position)) / parent_ssb.scale;
+        local.velocity = (to_parent * (vel - parent_ssb.velocity_of_point(pos))) / parent_ssb.scale;
     } else if (position_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
@@ -485,9 +485,9 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
 
     if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
         auto [rotation, ang_vel] = spice::sxform<double>("J2000", this->spice_frame_, t_emit);
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.rotation = parent_inv.rotation * rotation;
-        local.angular_velocity = parent_inv.apply_to_direction(ang_vel);
+        const Rotation<double> to_parent = parent_ssb.rotation.inverse();
+        local.rotation = to_parent * rotation;
+        local.angular_velocity = to_parent * (ang_vel - parent_ssb.angular_velocity);
     } else if (rotation_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
-- 
2.43.0


From c808cedc3c102c8d6b4a7f3bdc3da6d864daf244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 073/141] fix: a state callback keeps the half of the state
 that is not set again

---
 include/huira_impl/scene/node.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5433819..ce6a238 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -481,6 +481,10 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
         local.velocity = pos.velocity;
+    } else if (position_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        transform_callback_->evaluate(t_emit);
+        local.position = transform_callback_->state.position;
+        local.velocity = transform_callback_->state.velocity;
     }
 
     if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
@@ -492,6 +496,10 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
         local.angular_velocity = rot.angular_velocity;
+    } else if (rotation_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        transform_callback_->evaluate(t_emit);
+        local.rotation = transform_callback_->state.rotation;
+        local.angular_velocity = transform_callback_->state.angular_velocity;
     }
 
     // Mixed case - Step 2:
-- 
2.43.0


From de2308490afec69e2ef3774d5d90c7e49ddc61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 074/141] fix: nadir frames have double precision

---
 include/huira/scene/state_callbacks/nadir_point.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/huira/scene/state_callbacks/nadir_point.hpp b/include/huira/scene/state_callbacks/nadir_point.hpp
index 1602732..ee4edf7 100644
--- a/include/huira/scene/state_callbacks/nadir_point.hpp
+++ b/include/huira/scene/state_callbacks/nadir_point.hpp
@@ -11,9 +11,9 @@ struct ZUpYForwardCallback : public RotationCallback {
     {
         (void)epoch;
 
-        Vec3<float> z_axis = glm::normalize(position);
-        Vec3<float> y_axis = glm::normalize(velocity);
-        Vec3<float> x_axis = glm::normalize(glm::cross(y_axis, z_axis));
+        Vec3<double> z_axis = glm::normalize(position);
+        Vec3<double> y_axis = glm::normalize(velocity);
+        Vec3<double> x_axis = glm::normalize(glm::cross(y_axis, z_axis));
         y_axis = glm::normalize(glm::cross(z_axis, x_axis));
 
         this->rotation = Rotation<double>::from_basis_vectors(x_axis, y_axis, z_axis);
@@ -27,9 +27,9 @@ struct ZDownYForwardCallback : public RotationCallback {
     {
         (void)epoch;
 
-        Vec3<float> z_axis = -glm::normalize(position);
-        Vec3<float> y_axis = glm::normalize(velocity);
-        Vec3<float> x_axis = glm::normalize(glm::cross(y_axis, z_axis));
+        Vec3<double> z_axis = -glm::normalize(position);
+        Vec3<double> y_axis = glm::normalize(velocity);
+        Vec3<double> x_axis = glm::normalize(glm::cross(y_axis, z_axis));
         y_axis = glm::normalize(glm::cross(z_axis, x_axis));
 
         this->rotation = Rotation<double>::from_basis_vectors(x_axis, y_axis, z_axis);
-- 
2.43.0


From 366bcc096c8028abdbc426fdfeda9db10791f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 075/141] fix: subframes and instances can be deleted

---
 include/huira/scene/frame_node.hpp         |  2 ++
 include/huira/scene/name_registry.hpp      |  2 ++
 include/huira_impl/scene/frame_node.ipp    | 18 +++++++++++++++++-
 include/huira_impl/scene/name_registry.ipp | 11 +++++++++++
 4 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/huira/scene/frame_node.hpp b/include/huira/scene/frame_node.hpp
index 3777212..95155a0 100644
--- a/include/huira/scene/frame_node.hpp
+++ b/include/huira/scene/frame_node.hpp
@@ -64,6 +64,8 @@ class FrameNode : public Node<TSpectral> {
   protected:
     std::vector<std::shared_ptr<Node<TSpectral>>> children_;
 
+    void disown_(const std::shared_ptr<Node<TSpectral>>& node);
+
     bool position_must_be_spice_() const override;
     bool rotation_must_be_spice_() const override;
 
diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index e921009..8e9527e 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -21,6 +21,8 @@ class NameRegistry {
     void remove(std::shared_ptr<T> object);
     void set_name(std::shared_ptr<T> object, std::string name);
 
+    bool contains(const std::shared_ptr<T>& object) const;
+
     std::size_t size() const { return objects_.size(); }
 
     auto begin() { return objects_.begin(); }
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index f75b271..86624ca 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -55,7 +55,7 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
     auto it = std::find(children_.begin(), children_.end(), child);
     if (it != children_.end()) {
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
-        this->scene_->node_registry_.remove(child);
+        disown_(child);
         children_.erase(it);
     }
 }
@@ -148,6 +148,22 @@ FrameNode<TSpectral>::new_instance(CameraModel<TSpectral>* camera_model)
 // === Protected Members === //
 // ========================= //
 
+/**
+ * @brief Mark a node and its descendants as no longer owned by the scene.
+ * @param node Root of the removed subtree
+ */
+template <IsSpectral TSpectral>
+void FrameNode<TSpectral>::disown_(const std::shared_ptr<Node<TSpectral>>& node)
+{
+    for (const auto& child : node->get_children()) {
+        disown_(child);
+    }
+    if (this->scene_->node_registry_.contains(node)) {
+        this->scene_->node_registry_.remove(node); // named nodes only
+    }
+    node->set_scene_owned(false);
+}
+
 /**
  * @brief Check if manual position is allowed (no child uses SPICE).
  * @return bool True if allowed
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 00265ff..b59311a 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -49,6 +49,17 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
     HUIRA_LOG_INFO("Scene - Deleted: " + object->get_info());
 }
 
+/**
+ * @brief Check whether an object is in the registry.
+ * @param object Shared pointer to object
+ * @return true if the object is registered
+ */
+template <typename T>
+bool NameRegistry<T>::contains(const std::shared_ptr<T>& object) const
+{
+    return std::find(objects_.begin(), objects_.end(), object) != objects_.end();
+}
+
 /**
  * @brief Set a new name for an object.
  * @param object Shared pointer to object
-- 
2.43.0


From 83c5747535da4dfaaba98e35abac686ea38c7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 076/141] fix: an invalid focal length leaves the camera as it
 was

---
 include/huira_impl/cameras/camera_model.ipp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7be37bc..3c5a294 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -33,15 +33,17 @@ CameraModel<TSpectral>::CameraModel()
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
 {
-    is_explicit_matrix_ = false;
-    focal_length_ = focal_length.to_si_f();
+    const float f_m = focal_length.to_si_f();
 
-    if (focal_length_ <= 0 || std::isinf(focal_length_) || std::isnan(focal_length_)) {
+    if (f_m <= 0 || std::isinf(f_m) || std::isnan(f_m)) {
         HUIRA_THROW_ERROR(
             "CameraModel::set_focal_length - Focal length must be a positive finite value: " +
-            std::to_string(focal_length_));
+            std::to_string(f_m));
     }
 
+    is_explicit_matrix_ = false;
+    focal_length_ = f_m;
+
     compute_intrinsics_();
     if (use_aperture_psf_) {
         units::Meter f(focal_length_);
-- 
2.43.0


From 9a27ef7c73c080e15007cd3fc6d67852879a05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 077/141] fix: the principal point is in the last column of the
 intrinsic matrix

---
 include/huira_impl/cameras/camera_model.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 3c5a294..cd87643 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -230,8 +230,8 @@ void CameraModel<TSpectral>::set_intrinsic_matrix(const Mat3<float>& intrinsic_m
 {
     this->set_intrinsics(intrinsic_matrix[0][0],
                          intrinsic_matrix[1][1],
-                         intrinsic_matrix[0][2],
-                         intrinsic_matrix[1][2],
+                         intrinsic_matrix[2][0],
+                         intrinsic_matrix[2][1],
                          resolution,
                          anchor_focal_length);
 }
-- 
2.43.0


From abc89246b9251deaa30a7e5b29bd0742a049b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 078/141] fix: solid angles of narrow pixels keep their
 precision

---
 include/huira/cameras/camera_model.hpp      |  1 -
 include/huira_impl/cameras/camera_model.ipp | 28 ++++-----------------
 2 files changed, 5 insertions(+), 24 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f4aa44e..e5d9e18 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -197,7 +197,6 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     Image<float> pixel_solid_angles_;
     void compute_pixel_solid_angles_();
 
-    Vec3<double> tangent_(const Vec3<double>& p0, const Vec3<double>& p1) const;
     double triangle_solid_angle_(const Vec3<double>& c0,
                                  const Vec3<double>& c1,
                                  const Vec3<double>& c2) const;
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index cd87643..9ecd661 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -685,35 +685,17 @@ void CameraModel<TSpectral>::compute_pixel_solid_angles_()
     }
 }
 
-template <IsSpectral TSpectral>
-Vec3<double> CameraModel<TSpectral>::tangent_(const Vec3<double>& p0, const Vec3<double>& p1) const
-{
-    Vec3<double> p = p1 - p0;
-    Vec3<double> r = glm::cross(p0, p);
-    Vec3<double> t = glm::cross(r, p0);
-    return glm::normalize(t);
-}
-
 template <IsSpectral TSpectral>
 double CameraModel<TSpectral>::triangle_solid_angle_(const Vec3<double>& c0,
                                                      const Vec3<double>& c1,
                                                      const Vec3<double>& c2) const
 {
-    // Compute interior angles using tangent vectors
-    Vec3<double> t01 = tangent_(c0, c1);
-    Vec3<double> t02 = tangent_(c0, c2);
-    double angle0 = std::acos(glm::dot(t01, t02));
-
-    Vec3<double> t10 = tangent_(c1, c0);
-    Vec3<double> t12 = tangent_(c1, c2);
-    double angle1 = std::acos(glm::dot(t10, t12));
-
-    Vec3<double> t20 = tangent_(c2, c0);
-    Vec3<double> t21 = tangent_(c2, c1);
-    double angle2 = std::acos(glm::dot(t20, t21));
+    // Van Oosterom and Strackee, with the triple product taken of the (small) edge vectors so that
+    // it does not cancel for narrow pixels
+    const double triple = std::abs(glm::dot(c0, glm::cross(c1 - c0, c2 - c0)));
+    const double denominator = 1.0 + glm::dot(c0, c1) + glm::dot(c1, c2) + glm::dot(c2, c0);
 
-    // Apply Girard's theorem
-    return angle0 + angle1 + angle2 - PI<double>();
+    return 2.0 * std::atan2(triple, denominator);
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From a034572ca28acbad2373ca1f509b71988788e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 079/141] fix: a pixel's power is weighted by the cosine at its
 centre

---
 include/huira_impl/cameras/camera_model.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 9ecd661..4cb05f4 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -541,7 +541,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(int x, int y) const
 template <IsSpectral TSpectral>
 float CameraModel<TSpectral>::pixel_radiance_to_power(int x, int y) const
 {
-    Ray<TSpectral> ray = cast_ray(x, y);
+    Ray<TSpectral> ray =
+        cast_ray(Pixel{static_cast<float>(x) + 0.5f, static_cast<float>(y) + 0.5f});
     return pixel_solid_angles_(x, y) * this->get_projected_aperture_area(ray.direction());
 }
 
-- 
2.43.0


From 7b563aef5bb7b0b475a3087a2ab3990694e63a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 080/141] fix: the distortion field covers the whole sensor,
 down to one pixel

---
 include/huira_impl/cameras/camera_model.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 4cb05f4..747aa2a 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -492,8 +492,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / rx_;
+        float v = pixel[1] / ry_;
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -521,8 +521,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel) const
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / rx_;
+        float v = pixel[1] / ry_;
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -649,10 +649,10 @@ void CameraModel<TSpectral>::compute_distortion_field_()
 {
     Resolution res = sensor_->resolution();
 
-    distortion_field_ = Image<Vec3<float>>(res, Vec3<float>{0, 0, 0});
-
-    for (int x = 0; x < res.x; ++x) {
-        for (int y = 0; y < res.y; ++y) {
+    // One node per pixel corner, so that the field covers the whole sensor
+    distortion_field_ = Image<Vec3<float>>(res.x + 1, res.y + 1, Vec3<float>{0, 0, 0});
+    for (int x = 0; x <= res.x; ++x) {
+        for (int y = 0; y <= res.y; ++y) {
             Pixel pixel{static_cast<float>(x), static_cast<float>(y)};
             distortion_field_(x, y) = glm::normalize(pixel_to_direction_<float>(pixel));
         }
-- 
2.43.0


From 55d7b19cda3e78022d4d3cc6b52806838421af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 081/141] fix: every change of the optics updates the
 distortion field, frustum and solid angles

---
 include/huira/cameras/camera_model.hpp      | 12 ++++++++++--
 include/huira_impl/cameras/camera_model.ipp |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index e5d9e18..76f2bd9 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -62,7 +62,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     void set_opencv_distortion(OpenCVCoefficients coeffs);
     void set_owen_distortion(OwenCoefficients coeffs);
 
-    void delete_distortion() { distortion_ = nullptr; }
+    void delete_distortion()
+    {
+        distortion_ = nullptr;
+        compute_intrinsics_();
+    }
 
     template <IsSensor<TSpectral> TSensor, typename... Args>
     void set_sensor(Args&&... args);
@@ -152,7 +156,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
         return FrameBuffer<TSpectral>(resolution());
     }
 
-    void use_blender_convention(bool value = true) { blender_convention_ = value; }
+    void use_blender_convention(bool value = true)
+    {
+        blender_convention_ = value;
+        compute_intrinsics_();
+    }
     bool is_blender_convention() const { return blender_convention_; }
 
   protected:
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 747aa2a..d105e34 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -65,8 +65,7 @@ template <IsDistortion<TSpectral> TDistortion, typename... Args>
 void CameraModel<TSpectral>::set_distortion(Args&&... args)
 {
     distortion_ = std::make_unique<TDistortion>(std::forward<Args>(args)...);
-    compute_distortion_field_();
-    compute_frustum_();
+    compute_intrinsics_();
 }
 
 /**
@@ -612,6 +611,9 @@ void CameraModel<TSpectral>::compute_intrinsics_()
         fy_ = focal_length_ / sensor_->pixel_pitch().y;
     }
 
+    if (distortion_) {
+        compute_distortion_field_();
+    }
     compute_frustum_();
     compute_pixel_solid_angles_();
 }
-- 
2.43.0


From eb5b33b632e0110d0454e44626593ac25bfecf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 082/141] fix: the view frustum encloses the whole sensor for
 every lens and convention

---
 include/huira_impl/cameras/camera_model.ipp | 68 ++++++++-------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index d105e34..f2ca27c 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <limits>
 #include <memory>
 
@@ -705,53 +706,38 @@ template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::compute_frustum_()
 {
     Resolution res = sensor_->resolution();
-
-    Vec3<float> xdir{1, 0, 0};
-    Vec3<float> ydir{0, 1, 0};
-    Vec3<float> zdir{0, 0, 1};
-    if (blender_convention_) {
-        zdir = Vec3<float>{0, 0, -1};
-        ydir = Vec3<float>{0, -1, 0};
-    }
-
-    // Initialize the frustum side planes:
-    Vec3<float> left_extrema{0, 0, 0};
-    float left_min_dot = 100.f;
-
-    Vec3<float> right_extrema{0, 0, 0};
-    float right_min_dot = 100.f;
-
-    Vec3<float> top_extrema{0, 0, 0};
-    float top_min_dot = 100.f;
-
-    Vec3<float> bottom_extrema{0, 0, 0};
-    float bottom_min_dot = 100.f;
-
-    auto update = [&](int i, int j, Vec3<float>& extrema, float& min_dot) {
-        Ray<TSpectral> ray = cast_ray(i, j);
-        Vec3<float> direction = ray.direction();
-        float d = glm::dot(direction, zdir);
-        if (d < min_dot) {
-            extrema = direction;
-            min_dot = d;
-        }
+    const float handedness = blender_convention_ ? -1.f : 1.f;
+
+    // The widest slopes (x/depth, y/depth) anywhere on the border of the sensor:
+    float left = std::numeric_limits<float>::infinity();
+    float right = -std::numeric_limits<float>::infinity();
+    float top = std::numeric_limits<float>::infinity();
+    float bottom = -std::numeric_limits<float>::infinity();
+
+    auto update = [&](int i, int j) {
+        Vec3<float> direction = pixel_to_direction_<float>(
+            Pixel{static_cast<float>(i), static_cast<float>(j)});
+        left = std::min(left, direction.x);
+        right = std::max(right, direction.x);
+        top = std::min(top, handedness * direction.y);
+        bottom = std::max(bottom, handedness * direction.y);
     };
 
-    // Loop over all edge-pixels
-    for (int i = 0; i < res.x; ++i) {
-        update(i, 0, top_extrema, top_min_dot);
-        update(i, res.y - 1, bottom_extrema, bottom_min_dot);
+    for (int i = 0; i <= res.x; ++i) {
+        update(i, 0);
+        update(i, res.y);
     }
-    for (int j = 1; j < res.y - 1; ++j) {
-        update(0, j, left_extrema, left_min_dot);
-        update(res.x - 1, j, right_extrema, right_min_dot);
+    for (int j = 0; j <= res.y; ++j) {
+        update(0, j);
+        update(res.x, j);
     }
 
     // Form the frustum planes:
-    Vec3<float> left_normal = glm::normalize(glm::cross(ydir, left_extrema));
-    Vec3<float> right_normal = glm::normalize(glm::cross(right_extrema, ydir));
-    Vec3<float> top_normal = glm::normalize(glm::cross(top_extrema, xdir));
-    Vec3<float> bottom_normal = glm::normalize(glm::cross(xdir, bottom_extrema));
+    Vec3<float> zdir{0, 0, handedness};
+    Vec3<float> left_normal = glm::normalize(Vec3<float>{1, 0, -left * handedness});
+    Vec3<float> right_normal = glm::normalize(Vec3<float>{-1, 0, right * handedness});
+    Vec3<float> top_normal = glm::normalize(Vec3<float>{0, handedness, -top * handedness});
+    Vec3<float> bottom_normal = glm::normalize(Vec3<float>{0, -handedness, bottom * handedness});
 
     view_frustum_ =
         Frustum<TSpectral>({zdir, left_normal, right_normal, top_normal, bottom_normal});
-- 
2.43.0


From 52a965185fc100ba4cb03237b689847ef7a099c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 083/141] fix: the focal plane of a distorted camera is flat

---
 include/huira_impl/cameras/camera_model.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index f2ca27c..5d4f142 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -504,7 +504,7 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
         Vec3<float> aperture_point{aperture_sample.x, aperture_sample.y, 0.f};
 
         if (!std::isinf(d_)) {
-            Vec3<float> focal_point = direction * d_;
+            Vec3<float> focal_point = direction * (d_ / std::abs(direction.z));
             direction = focal_point - aperture_point;
         }
         origin = aperture_point;
-- 
2.43.0


From e7079afbdccba01ebc840c07bc6bacc7eaff0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 084/141] fix: a camera focused beyond infinity looks forward

---
 include/huira_impl/cameras/camera_model.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 5d4f142..d612a4b 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -506,6 +506,9 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
         if (!std::isinf(d_)) {
             Vec3<float> focal_point = direction * (d_ / std::abs(direction.z));
             direction = focal_point - aperture_point;
+            if (d_ < 0.f) { // focused beyond infinity: the rays diverge from a point behind
+                direction = -direction;
+            }
         }
         origin = aperture_point;
     }
-- 
2.43.0


From f5bc3ad1a7efa7644bffa7c0d4bf6653ad1e120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 085/141] fix: a new sensor is centred and sets the pixel scale

---
 include/huira_impl/cameras/camera_model.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index d612a4b..9f70060 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -111,6 +111,10 @@ template <IsSensor<TSpectral> TSensor, typename... Args>
 void CameraModel<TSpectral>::set_sensor(Args&&... args)
 {
     sensor_ = std::make_unique<TSensor>(std::forward<Args>(args)...);
+
+    is_explicit_matrix_ = false;
+    cx_ = static_cast<float>(sensor_->resolution().x) * 0.5f;
+    cy_ = static_cast<float>(sensor_->resolution().y) * 0.5f;
     compute_intrinsics_();
 }
 
-- 
2.43.0


From 6e4de1c85f458aaad243186cc5a789463dc4add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 086/141] fix: camera settings are checked before anything is
 changed

---
 include/huira/cameras/camera_model.hpp      |   5 +
 include/huira_impl/cameras/camera_model.ipp | 122 ++++++++++----------
 2 files changed, 64 insertions(+), 63 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index 76f2bd9..ff0226b 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -192,6 +192,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     float ry_;
 
     bool is_explicit_matrix_ = false;
+    void set_pixels_(const Resolution& resolution,
+                     units::Micrometer pitch_x,
+                     units::Micrometer pitch_y,
+                     std::optional<float> cx,
+                     std::optional<float> cy);
     void compute_intrinsics_();
 
     bool depth_of_field_ = false;
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 9f70060..d585ae1 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -119,32 +119,17 @@ void CameraModel<TSpectral>::set_sensor(Args&&... args)
 }
 
 /**
- * @brief Configure the sensor using pixel pitch and resolution.
+ * @brief Check and assign the sensor's resolution, pixel pitch and principal point.
  *
- * This method sets the sensor resolution, pixel pitch, and principal point. It also computes the
- * intrinsics based on the new configuration.
- * @param resolution Sensor resolution
- * @param pitch_x Pixel pitch in x direction (micrometers)
- * @param pitch_y Pixel pitch in y direction (micrometers)
- * @param cx Principal point x coordinate (must be within resolution bounds)
- * @param cy Principal point y coordinate (must be within resolution bounds)
+ * Nothing is changed if any of them is refused.
  */
 template <IsSpectral TSpectral>
-void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resolution,
-                                                         units::Micrometer pitch_x,
-                                                         std::optional<units::Micrometer> pitch_y,
-                                                         std::optional<float> cx,
-                                                         std::optional<float> cy)
+void CameraModel<TSpectral>::set_pixels_(const Resolution& resolution,
+                                         units::Micrometer pitch_x,
+                                         units::Micrometer pitch_y,
+                                         std::optional<float> cx,
+                                         std::optional<float> cy)
 {
-    is_explicit_matrix_ = false;
-
-    sensor_->set_resolution(resolution);
-
-    if (!pitch_y.has_value()) {
-        pitch_y = pitch_x;
-    }
-    sensor_->set_pixel_pitch(pitch_x, pitch_y.value());
-
     float final_cx = cx.value_or(static_cast<float>(resolution.x) * 0.5f);
     float final_cy = cy.value_or(static_cast<float>(resolution.y) * 0.5f);
 
@@ -161,9 +146,40 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
                           "this intended for an off-axis projection.");
     }
 
+    // The pitch goes back if the resolution is refused
+    const Vec2<float> old_pitch = sensor_->pixel_pitch();
+    sensor_->set_pixel_pitch(pitch_x, pitch_y);
+    try {
+        sensor_->set_resolution(resolution);
+    } catch (...) {
+        sensor_->set_pixel_pitch(units::Meter(old_pitch.x), units::Meter(old_pitch.y));
+        throw;
+    }
+
+    is_explicit_matrix_ = false;
     cx_ = final_cx;
     cy_ = final_cy;
+}
 
+/**
+ * @brief Configure the sensor using pixel pitch and resolution.
+ *
+ * This method sets the sensor resolution, pixel pitch, and principal point. It also computes the
+ * intrinsics based on the new configuration.
+ * @param resolution Sensor resolution
+ * @param pitch_x Pixel pitch in x direction (micrometers)
+ * @param pitch_y Pixel pitch in y direction (micrometers)
+ * @param cx Principal point x coordinate (must be within resolution bounds)
+ * @param cy Principal point y coordinate (must be within resolution bounds)
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resolution,
+                                                         units::Micrometer pitch_x,
+                                                         std::optional<units::Micrometer> pitch_y,
+                                                         std::optional<float> cx,
+                                                         std::optional<float> cy)
+{
+    set_pixels_(resolution, pitch_x, pitch_y.value_or(pitch_x), cx, cy);
     compute_intrinsics_();
 }
 
@@ -185,39 +201,14 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
                                                         std::optional<float> cx,
                                                         std::optional<float> cy)
 {
-    is_explicit_matrix_ = false;
-
-    sensor_->set_resolution(resolution);
-
+    // If height is not provided, assume square pixels
+    units::Meter pitch_x(width.to_si() / static_cast<double>(resolution.x));
+    units::Meter pitch_y = pitch_x;
     if (height.has_value()) {
-        sensor_->set_sensor_size(width, height.value());
-    } else {
-        // If height is not provided, assume square pixels and compute height from width and
-        // resolution
-        float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);
-        float pixel_size_y = pixel_size_x; // Square pixels
-        sensor_->set_pixel_pitch(units::Meter(pixel_size_x), units::Meter(pixel_size_y));
-    }
-
-    float final_cx = cx.value_or(static_cast<float>(resolution.x) * 0.5f);
-    float final_cy = cy.value_or(static_cast<float>(resolution.y) * 0.5f);
-
-    if (std::isnan(final_cx) || std::isnan(final_cy) || std::isinf(final_cx) ||
-        std::isinf(final_cy)) {
-        HUIRA_THROW_ERROR("CameraModel - Principal point (cx, cy) must be finite numeric values.");
-    }
-
-    if (final_cx < -static_cast<float>(resolution.x) ||
-        final_cx > static_cast<float>(resolution.x) * 2.0f ||
-        final_cy < -static_cast<float>(resolution.y) ||
-        final_cy > static_cast<float>(resolution.y) * 2.0f) {
-        HUIRA_LOG_WARNING("Principal point is significantly outside the sensor resolution. Ensure "
-                          "this intended for an off-axis projection.");
+        pitch_y = units::Meter(height->to_si() / static_cast<double>(resolution.y));
     }
 
-    cx_ = final_cx;
-    cy_ = final_cy;
-
+    set_pixels_(resolution, pitch_x, pitch_y, cx, cy);
     compute_intrinsics_();
 }
 
@@ -257,20 +248,20 @@ void CameraModel<TSpectral>::set_intrinsics(float fx,
                                             const Resolution& resolution,
                                             units::Millimeter anchor_focal_length)
 {
-    is_explicit_matrix_ = true;
+    const float f_m = anchor_focal_length.to_si_f();
+    if (!(fx > 0.f) || !(fy > 0.f) || std::isinf(fx) || std::isinf(fy) || !(f_m > 0.f) ||
+        std::isinf(f_m)) {
+        HUIRA_THROW_ERROR("CameraModel::set_intrinsics - fx, fy and the anchor focal length must "
+                          "be positive finite values.");
+    }
+
+    // Use the anchor to compute the pixel_pitch/size
+    set_pixels_(resolution, units::Meter(f_m / fx), units::Meter(f_m / fy), cx, cy);
 
+    is_explicit_matrix_ = true;
     fx_ = fx;
     fy_ = fy;
-    cx_ = cx;
-    cy_ = cy;
-    sensor_->set_resolution(resolution);
-    focal_length_ = anchor_focal_length.to_si_f();
-
-    // Use the anchor to compute the pixel_pitch/size
-    units::Meter px(focal_length_ / fx_);
-    units::Meter py(focal_length_ / fy_);
-    sensor_->set_pixel_pitch(px, py);
-    sensor_->set_sensor_size(px * resolution.x, py * resolution.y);
+    focal_length_ = f_m;
 
     compute_intrinsics_();
 }
@@ -582,6 +573,11 @@ float CameraModel<TSpectral>::get_projected_aperture_area(const Vec3<float>& dir
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_fstop(float fstop)
 {
+    if (!(fstop > 0.f) || std::isinf(fstop)) {
+        HUIRA_THROW_ERROR("CameraModel::set_fstop - The f-stop must be a positive finite value: " +
+                          std::to_string(fstop));
+    }
+
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-- 
2.43.0


From 417e960c3a86e7531fcc9868f263aba847c5b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 087/141] fix: aperture kernels follow the focal length,
 aperture and pixels

---
 include/huira/cameras/camera_model.hpp      |  1 +
 include/huira_impl/cameras/camera_model.ipp | 37 ++++++++++++++-------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index ff0226b..e500dd4 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -198,6 +198,7 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
                      std::optional<float> cx,
                      std::optional<float> cy);
     void compute_intrinsics_();
+    void update_kernels_();
 
     bool depth_of_field_ = false;
 
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index d585ae1..406a88c 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -46,12 +46,7 @@ void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
     focal_length_ = f_m;
 
     compute_intrinsics_();
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_kernels_();
 }
 
 /**
@@ -116,6 +111,7 @@ void CameraModel<TSpectral>::set_sensor(Args&&... args)
     cx_ = static_cast<float>(sensor_->resolution().x) * 0.5f;
     cy_ = static_cast<float>(sensor_->resolution().y) * 0.5f;
     compute_intrinsics_();
+    update_kernels_();
 }
 
 /**
@@ -181,6 +177,7 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
 {
     set_pixels_(resolution, pitch_x, pitch_y.value_or(pitch_x), cx, cy);
     compute_intrinsics_();
+    update_kernels_();
 }
 
 /**
@@ -210,6 +207,7 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
 
     set_pixels_(resolution, pitch_x, pitch_y, cx, cy);
     compute_intrinsics_();
+    update_kernels_();
 }
 
 /**
@@ -264,6 +262,7 @@ void CameraModel<TSpectral>::set_intrinsics(float fx,
     focal_length_ = f_m;
 
     compute_intrinsics_();
+    update_kernels_();
 }
 
 /**
@@ -289,6 +288,7 @@ template <IsAperture TAperture, typename... Args>
 void CameraModel<TSpectral>::set_aperture(Args&&... args)
 {
     aperture_ = std::make_unique<TAperture>(std::forward<Args>(args)...);
+    update_kernels_();
 }
 
 /**
@@ -581,12 +581,7 @@ void CameraModel<TSpectral>::set_fstop(float fstop)
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_kernels_();
 }
 
 /**
@@ -601,6 +596,24 @@ float CameraModel<TSpectral>::fstop() const
     return focal_length_ / aperture_diameter;
 }
 
+/**
+ * @brief Rebuild the kernels that depend on the aperture, the focal length and the pixels.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::update_kernels_()
+{
+    units::Meter f(focal_length_);
+    units::Meter px(sensor_->pixel_pitch().x);
+    units::Meter py(sensor_->pixel_pitch().y);
+
+    if (use_aperture_psf_) {
+        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
+    }
+    if (!std::isinf(d_)) {
+        aperture_->build_defocus_kernel(get_diopters(), f, px, py, 16);
+    }
+}
+
 /**
  * @brief Compute the camera intrinsic parameters (focal lengths, principal point, resolution).
  */
-- 
2.43.0


From db1ee492203a1bbb41cd74cfcc7d88dce9685243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 088/141] fix: transforms between two samples turn and scale as
 well as move

---
 include/huira_impl/render/renderer.ipp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index aaa8f07..87aed6f 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -94,11 +94,9 @@ inline Transform<float> interpolate_transform(const std::vector<Transform<float>
     // Slerp rotation (assuming you are using glm::quat for rotations)
     auto quat = transforms[idx].rotation.local_to_parent_quaternion();
     auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation.from_local_to_parent(glm::slerp(quat, next_quat, frac));
-
-    // Scale interpolation
-    // result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
-
+    result.rotation = Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
+    // Linearly interpolate scale
+    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
     return result;
 }
 
-- 
2.43.0


From 7a2a4441f322e09b04f957583ad806f9bd3144a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 089/141] fix: a hit on a moving instance is resolved at the
 time of the ray

---
 include/huira/geometry/ray.hpp          |  1 +
 include/huira_impl/render/renderer.ipp  | 29 ----------------------
 include/huira_impl/scene/scene_view.ipp | 32 ++++++++++++++++++++++++-
 3 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/include/huira/geometry/ray.hpp b/include/huira/geometry/ray.hpp
index 102c181..074a61f 100644
--- a/include/huira/geometry/ray.hpp
+++ b/include/huira/geometry/ray.hpp
@@ -43,6 +43,7 @@ struct HitRecord {
     unsigned int geom_id = RTC_INVALID_GEOMETRY_ID;   ///< Geometry ID in BLAS
     unsigned int prim_id = 0;                         ///< Triangle index
     Vec3<float> Ng{};                                 ///< Geometric face normal (unnormalized)
+    float time = 0.f;                                 ///< Shutter time [0, 1] the ray was traced at
 
     [[nodiscard]] bool hit() const noexcept { return inst_id != RTC_INVALID_GEOMETRY_ID; }
 };
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 87aed6f..b76363e 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -71,35 +71,6 @@ inline float power_heuristic(float f_pdf, float g_pdf)
     return f2 / (f2 + g2);
 }
 
-inline Transform<float> interpolate_transform(const std::vector<Transform<float>>& transforms,
-                                              float t)
-{
-    if (transforms.empty()) {
-        return Transform<float>{};
-    }
-    if (transforms.size() == 1) {
-        return transforms[0];
-    }
-
-    float scaled_t = t * static_cast<float>(transforms.size() - 1);
-    std::size_t idx = static_cast<std::size_t>(std::floor(scaled_t));
-    idx = std::min(idx, transforms.size() - 2);
-    float frac = scaled_t - static_cast<float>(idx);
-
-    Transform<float> result;
-    // Linearly interpolate position
-    result.position =
-        transforms[idx].position * (1.0f - frac) + transforms[idx + 1].position * frac;
-
-    // Slerp rotation (assuming you are using glm::quat for rotations)
-    auto quat = transforms[idx].rotation.local_to_parent_quaternion();
-    auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation = Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
-    // Linearly interpolate scale
-    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
-    return result;
-}
-
 /**
  * @brief Path trace a scene view into a frame buffer.
  *
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 091e9e4..4efdb13 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -155,6 +155,35 @@ SceneView<TSpectral>::~SceneView()
     }
 }
 
+inline Transform<float> interpolate_transform(const std::vector<Transform<float>>& transforms,
+                                              float t)
+{
+    if (transforms.empty()) {
+        return Transform<float>{};
+    }
+    if (transforms.size() == 1) {
+        return transforms[0];
+    }
+
+    float scaled_t = t * static_cast<float>(transforms.size() - 1);
+    std::size_t idx = static_cast<std::size_t>(std::floor(scaled_t));
+    idx = std::min(idx, transforms.size() - 2);
+    float frac = scaled_t - static_cast<float>(idx);
+
+    Transform<float> result;
+    // Linearly interpolate position
+    result.position =
+        transforms[idx].position * (1.0f - frac) + transforms[idx + 1].position * frac;
+
+    // Slerp rotation (assuming you are using glm::quat for rotations)
+    auto quat = transforms[idx].rotation.local_to_parent_quaternion();
+    auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
+    result.rotation = Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
+    // Linearly interpolate scale
+    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
+    return result;
+}
+
 template <IsSpectral TSpectral>
 struct RayContext : public RTCRayQueryContext {
     const SceneView<TSpectral>* scene_view;
@@ -201,6 +230,7 @@ SceneView<TSpectral>::intersect(const Ray<TSpectral>& ray, float time, unsigned
     HitRecord rec;
     if (rayhit.hit.geomID != RTC_INVALID_GEOMETRY_ID) {
         rec.t = rayhit.ray.tfar;
+        rec.time = time;
         rec.u = rayhit.hit.u;
         rec.v = rayhit.hit.v;
         rec.inst_id = rayhit.hit.instID[0];
@@ -310,7 +340,7 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     batch.primitive->geometry->compute_surface_interaction(hit, isect);
     isect.wo = -ray.direction();
     const auto& instance_transforms = batch.instances[mapping.instance_index];
-    const Transform<float>& xf = instance_transforms[0];
+    const Transform<float> xf = interpolate_transform(instance_transforms, hit.time);
 
     isect.position = xf.apply_to_point(isect.position);
     isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
-- 
2.43.0


From 861c2c50fd05e42aaa9b2a6cf79b48ffb9e40e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 090/141] fix: normals stay perpendicular to non-uniformly
 scaled surfaces

---
 include/huira_impl/scene/scene_view.ipp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 4efdb13..f92175c 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -343,11 +343,14 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     const Transform<float> xf = interpolate_transform(instance_transforms, hit.time);
 
     isect.position = xf.apply_to_point(isect.position);
-    isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
+    // Normals scale inversely to the surface:
+    const auto normal_to_world = [&xf](const Vec3<float>& n) {
+        return glm::normalize(xf.rotation * (n / xf.scale));
+    };
+    isect.normal_g = normal_to_world(hit.Ng);
     isect.normal_g =
         glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
-    isect.normal_s = glm::normalize(
-        xf.apply_to_direction(isect.normal_s)); // TODO Do we need to invert this as well?
+    isect.normal_s = normal_to_world(isect.normal_s);
     if (glm::dot(isect.normal_s, isect.normal_g) < 0.0f) {
         isect.normal_s = -isect.normal_s;
     }
-- 
2.43.0


From f711aaba0efd357c07dadee9a9468beebf5aa9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 091/141] fix: a mesh without tangents resolves to zero
 tangents instead of NaN

---
 include/huira_impl/scene/scene_view.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index f92175c..97b015c 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -355,8 +355,13 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
         isect.normal_s = -isect.normal_s;
     }
 
-    isect.tangent = glm::normalize(xf.apply_to_direction(isect.tangent));
-    isect.bitangent = glm::normalize(xf.apply_to_direction(isect.bitangent));
+    // Geometry without tangents leaves them zero:
+    if (isect.tangent != Vec3<float>{0.0f}) {
+        isect.tangent = glm::normalize(xf.apply_to_direction(isect.tangent));
+    }
+    if (isect.bitangent != Vec3<float>{0.0f}) {
+        isect.bitangent = glm::normalize(xf.apply_to_direction(isect.bitangent));
+    }
     if (glm::dot(glm::cross(isect.tangent, isect.bitangent), isect.normal_s) < 0.0f) {
         isect.bitangent = -isect.bitangent;
     }
-- 
2.43.0


From ad57827b2de7bb77033028e18745e885c952d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 092/141] fix: a hit on a light resolves to the point on the
 light

---
 include/huira_impl/scene/scene_view.ipp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 97b015c..8228c32 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -334,8 +334,19 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
 
     // Look up which mesh and instance this hit corresponds to:
     const auto& mapping = instance_mappings_[hit.inst_id];
+    if (mapping.type == GeometryType::Light) {
+        const Transform<float> light_xf =
+            interpolate_transform(lights_[mapping.light_index].transforms, hit.time);
+        isect.wo = -ray.direction();
+        isect.position = ray.at(hit.t);
+        isect.normal_g = glm::normalize(light_xf.rotation * (hit.Ng / light_xf.scale));
+        if (glm::dot(ray.direction(), isect.normal_g) > 0.0f) {
+            isect.normal_g = -isect.normal_g;
+        }
+        isect.normal_s = isect.normal_g;
+        return isect;
+    }
     const auto& batch = primitives_[mapping.batch_index];
-
     // Get the hit:
     batch.primitive->geometry->compute_surface_interaction(hit, isect);
     isect.wo = -ray.direction();
-- 
2.43.0


From 7e077a7a3b3f7ab8b14eb1d42e6d0103e8af482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 093/141] fix: renders do not depend on the threads that draw
 them

---
 include/huira_impl/render/renderer.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index b76363e..d261f87 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -106,7 +106,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
     int tiles_x = (fb_width + TILE_SIZE - 1) / TILE_SIZE;
     int tiles_y = (fb_height + TILE_SIZE - 1) / TILE_SIZE;
     int num_tiles = tiles_x * tiles_y;
-    float time = 0.f;
     const bool has_motion_blur = scene_view.temporal_samples_.size() > 1;
 
     tbb::parallel_for(
@@ -149,6 +148,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
 
                             // Motion blur: randomize time sample per ray
+                            float time = 0.f;
                             if (has_motion_blur) {
                                 time = sampler.get_1d(); // [0, 1] maps to shutter interval
                             }
@@ -201,7 +201,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                       time);
 
                                             auto sample = light_instance.light->sample_li(
-                                                vol_isect, current_transform, this->sampler_);
+                                                vol_isect, current_transform, sampler);
 
                                             if (!sample) {
                                                 continue;
@@ -360,7 +360,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             interpolate_transform(light_instance.transforms, time);
 
                                         auto sample = light_instance.light->sample_li(
-                                            isect, current_transform, this->sampler_);
+                                            isect, current_transform, sampler);
 
                                         if (!sample) {
                                             continue;
-- 
2.43.0


From 30b071fcb3be2f79c4be724948c0dd34e01d29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 094/141] fix: samples that are not finite stay out of every
 band

---
 include/huira_impl/render/renderer.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index d261f87..5e2ca4e 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -459,7 +459,11 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                             TSpectral sample_radiance = direct_radiance + indirect_radiance;
 
-                            if (std::isnan(sample_radiance[0])) {
+                            bool is_finite = true;
+                            for (std::size_t c = 0; c < TSpectral::size(); ++c) {
+                                is_finite = is_finite && std::isfinite(sample_radiance[c]);
+                            }
+                            if (!is_finite) {
                                 continue;
                             }
 
@@ -489,7 +493,8 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                 }
                             }
                         }
-                        float inv_spp = 1.0f / static_cast<float>(samples_taken);
+                        float inv_spp =
+                            samples_taken > 0 ? 1.0f / static_cast<float>(samples_taken) : 0.0f;
 
                         // Average over samples and write to frame buffer:
                         TSpectral avg_radiance = pixel_radiance * inv_spp;
-- 
2.43.0


From 1d050fd98030744c0e2dad247756790e033863fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 095/141] fix: pixels without a surface have a zero normal

---
 include/huira_impl/render/renderer.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 5e2ca4e..a403529 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -500,7 +500,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                         TSpectral avg_radiance = pixel_radiance * inv_spp;
                         TSpectral direct_radiance = pixel_direct_radiance * inv_spp;
                         TSpectral indirect_radiance = pixel_indirect_radiance * inv_spp;
-                        Vec3<float> avg_camera_normals = glm::normalize(camera_normals * inv_spp);
+                        Vec3<float> avg_camera_normals{0.f};
+                        if (glm::length(camera_normals) > 0.0f) {
+                            avg_camera_normals = glm::normalize(camera_normals);
+                        }
 
                         if (frame_buffer.has_depth()) {
                             if (closest_depth < std::numeric_limits<float>::infinity()) {
-- 
2.43.0


From 8c30a342551d6050e884222142650f01db2d6b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 096/141] fix: world normals are in the world frame

---
 include/huira_impl/render/renderer.ipp  | 3 +--
 include/huira_impl/scene/scene_view.ipp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index a403529..a29c305 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -525,8 +525,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                         if (frame_buffer.has_world_normals()) {
                             frame_buffer.world_normals()(x, y) =
-                                scene_view.camera_to_world_[0].apply_to_direction(
-                                    avg_camera_normals);
+                                scene_view.camera_to_world_[0].rotation * avg_camera_normals;
                         }
 
                         if (frame_buffer.has_received_direct_power()) {
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 8228c32..70e9be2 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -62,7 +62,7 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
 
         observer_transforms[i] = obs_ssb;
         observer_inverses[i] = obs_ssb.inverse();
-        camera_to_world_[i] = static_cast<Transform<float>>(observer_inverses[i]);
+        camera_to_world_[i] = static_cast<Transform<float>>(observer_transforms[i]);
     }
 
     // Copy the background radiance:
-- 
2.43.0


From 93807fe7e091c7ec4117e8720e6572b0e6734459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 097/141] fix: the background does not turn with the camera

---
 include/huira_impl/render/renderer.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index a29c305..20c276d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -256,7 +256,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                 if (!hit.hit()) {
                                     // Sample environment map using ray direction
-                                    Vec3<float> d = glm::normalize(ray.direction());
+                                    Vec3<float> d = glm::normalize(
+                                        interpolate_transform(scene_view.camera_to_world_, time)
+                                            .rotation *
+                                        ray.direction());
                                     float u =
                                         0.5f + std::atan2(d.z, d.x) * (0.5f * INV_PI<float>());
                                     float v = 0.5f - std::asin(std::clamp(d.y, -1.0f, 1.0f)) *
-- 
2.43.0


From 6c6187219a39e5777dba689a6b968c3c31a084d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 098/141] fix: lights seen through a delta surface keep their
 radiance

---
 include/huira_impl/render/renderer.ipp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 20c276d..92c8a6a 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -159,7 +159,8 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                             float prev_roughness = 0.0f;
 
-                            float prev_bsdf_pdf = 1.0f;
+                            // No light sampling competes with the camera's own direction:
+                            float prev_bsdf_pdf = std::numeric_limits<float>::infinity();
                             Interaction<TSpectral> prev_isect;
 
                             MediumStack<TSpectral> medium_stack;
@@ -427,8 +428,14 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     Vec3<float> bounce_origin =
                                         offset_intersection_(isect.position, bounce_normal);
 
-                                    prev_bsdf_pdf = bs.is_delta ? 0.0f : bs.pdf;
-                                    prev_isect = shading_isect;
+                                    // Light samples see through what lets rays straight through,
+                                    // and cannot follow any other delta reflection:
+                                    if (!bs.is_delta || bs.wi != -isect.wo) {
+                                        prev_bsdf_pdf = bs.is_delta
+                                                            ? std::numeric_limits<float>::infinity()
+                                                            : bs.pdf;
+                                        prev_isect = shading_isect;
+                                    }
 
                                     throughput = throughput * bs.value;
 
-- 
2.43.0


From b2ecb800dd5f3fd066b916ab34d2ae23ec167784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 099/141] fix: light scattered by a medium is counted once

---
 include/huira_impl/render/renderer.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 92c8a6a..5dabc2c 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -224,8 +224,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             float phase_val =
                                                 opt_mi->phase_function->evaluate(opt_mi->wo, ls.wi);
 
+                                            float mis_weight = power_heuristic(ls.pdf, phase_val);
                                             TSpectral Ld = throughput * (ls.Li / ls.pdf) *
-                                                           phase_val * shadow_transmittance;
+                                                           phase_val * mis_weight *
+                                                           shadow_transmittance;
 
                                             if (bounce == 0) {
                                                 direct_radiance += Ld;
@@ -243,6 +245,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                         ray = Ray<TSpectral>(opt_mi->p, ps.wi);
                                         prev_bsdf_pdf = ps.p;
+                                        prev_isect = vol_isect;
                                         continue;
 
                                     } else {
-- 
2.43.0


From c019105097317564f365b4c63bdc930b5dd16144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 100/141] fix: rays that leave a medium for empty space keep
 their throughput

---
 include/huira_impl/render/renderer.ipp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 5dabc2c..5967a13 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -184,11 +184,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         float t = opt_mi->t;
                                         TSpectral Tr{0.f};
                                         for (std::size_t c = 0; c < TSpectral::size(); ++c) {
-                                            Tr[c] = std::exp(-ext[c] * t);
+                                            Tr[c] = std::exp((avg_ext - ext[c]) * t);
                                         }
-                                        float pdf = avg_ext * std::exp(-avg_ext * t);
                                         throughput =
-                                            throughput * props.scattering * Tr * (1.0f / pdf);
+                                            throughput * props.scattering * Tr * (1.0f / avg_ext);
 
                                         Interaction<TSpectral> vol_isect;
                                         vol_isect.position = opt_mi->p;
@@ -249,12 +248,15 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         continue;
 
                                     } else {
-                                        TSpectral Tr{0.f};
+                                        // Ratio of the transmittance to the probability of
+                                        // getting this far (which may be infinitely far):
+                                        TSpectral Tr{1.f};
                                         for (std::size_t c = 0; c < TSpectral::size(); ++c) {
-                                            Tr[c] = std::exp(-ext[c] * hit.t);
+                                            if (ext[c] != avg_ext) {
+                                                Tr[c] = std::exp((avg_ext - ext[c]) * hit.t);
+                                            }
                                         }
-                                        float pdf = std::exp(-avg_ext * hit.t);
-                                        throughput = throughput * Tr * (1.0f / pdf);
+                                        throughput = throughput * Tr;
                                     }
                                 }
 
-- 
2.43.0


From 44facd11edca6bc2c6faab30752e91ebe45dfc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 101/141] fix: thin media attenuate over long distances

---
 include/huira/volumes/medium.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira/volumes/medium.hpp b/include/huira/volumes/medium.hpp
index 0744d19..f99a84a 100644
--- a/include/huira/volumes/medium.hpp
+++ b/include/huira/volumes/medium.hpp
@@ -89,8 +89,8 @@ class Medium : public SceneObject<Medium<TSpectral>> {
         }
         avg_ext /= static_cast<float>(TSpectral::size());
 
-        // If the medium is practically a vacuum, the ray escapes infinitely
-        if (avg_ext <= 1e-6f) {
+        // If the medium is a vacuum, the ray escapes infinitely
+        if (avg_ext <= 0.0f) {
             return std::nullopt;
         }
 
-- 
2.43.0


From a305e8fb860e8f948c6a9c8fa0eda761fe32e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 102/141] fix: emissive materials emit

---
 include/huira_impl/render/renderer.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 5967a13..fb79365 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -363,6 +363,13 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         albedo_total += params.albedo;
                                     }
 
+                                    // Light the surface emits itself
+                                    if (bounce == 0) {
+                                        direct_radiance += throughput * params.emission;
+                                    } else {
+                                        indirect_radiance += throughput * params.emission;
+                                    }
+
                                     // Direct lighting (next event estimation)
                                     for (const auto& light_instance : lights) {
                                         Transform<float> current_transform =
-- 
2.43.0


From e16f4a8c85d6af459343fe348476ccce1365e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 103/141] fix: depth is measured from the camera

---
 include/huira_impl/render/renderer.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index fb79365..53674aa 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -158,6 +158,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             TSpectral indirect_radiance{0};
 
                             float prev_roughness = 0.0f;
+                            float distance_before = 0.0f; // travelled before the current ray
 
                             // No light sampling competes with the camera's own direction:
                             float prev_bsdf_pdf = std::numeric_limits<float>::infinity();
@@ -343,7 +344,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                  ray.direction());
 
                                             medium_stack.toggle(batch.primitive.get());
-
+                                            distance_before += hit.t;
                                             bounce--; // Don't count this towards bounce counts
                                             continue;
                                         }
@@ -358,7 +359,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                     // Record primary ray info:
                                     if (bounce == 0) {
-                                        closest_depth = std::min(closest_depth, hit.t);
+                                        closest_depth = std::min(closest_depth, distance_before + hit.t);
                                         camera_normals += shading_isect.normal_s;
                                         albedo_total += params.albedo;
                                     }
-- 
2.43.0


From 7ef12fa179594ef11ff3cbb72fced6f863a97be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 104/141] fix: PSF convolution without a PSF leaves the image
 alone

---
 include/huira_impl/render/renderer.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 53674aa..1584648 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -570,7 +570,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
             }
         });
 
-    if (frame_buffer.has_received_power() && camera->convolve_psf_) {
+    if (frame_buffer.has_received_power() && camera->convolve_psf_ && camera->has_psf()) {
         const Image<TSpectral>& psf = camera->get_psf_kernel(0.0f, 0.0f);
         received_power.convolve(psf);
     }
@@ -1010,7 +1010,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                           }
                       });
 
-    if (use_defocus && camera->convolve_psf_) {
+    if (use_defocus && camera->convolve_psf_ && camera->has_psf()) {
         const Image<TSpectral>& psf = camera->get_psf_kernel(0.0f, 0.0f);
         received_power.convolve(psf);
     }
-- 
2.43.0


From 02873464b1c1a2b96773b98eff097c69a6a4e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 105/141] fix: the last bounce keeps all the light sampled
 there

---
 include/huira_impl/render/renderer.ipp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 1584648..8e2e3dd 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -224,7 +224,12 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             float phase_val =
                                                 opt_mi->phase_function->evaluate(opt_mi->wo, ls.wi);
 
-                                            float mis_weight = power_heuristic(ls.pdf, phase_val);
+                                            // The last bounce scatters no further ray that could
+                                            // find the light instead:
+                                            float mis_weight = 1.0f;
+                                            if (bounce + 1 < max_bounces_) {
+                                                mis_weight = power_heuristic(ls.pdf, phase_val);
+                                            }
                                             TSpectral Ld = throughput * (ls.Li / ls.pdf) *
                                                            phase_val * mis_weight *
                                                            shadow_transmittance;
@@ -410,9 +415,13 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             std::max(0.0f, glm::dot(shading_isect.normal_s, ls.wi));
 
                                         float mis_weight = 1.0f;
-                                        float bsdf_pdf = material->bsdf_pdf(
-                                            isect.wo, ls.wi, {params, shading_isect});
-                                        mis_weight = power_heuristic(ls.pdf, bsdf_pdf);
+                                        // The last bounce scatters no further ray that could find
+                                        // the light instead:
+                                        if (bounce + 1 < max_bounces_) {
+                                            float bsdf_pdf = material->bsdf_pdf(
+                                                isect.wo, ls.wi, {params, shading_isect});
+                                            mis_weight = power_heuristic(ls.pdf, bsdf_pdf);
+                                        }
 
                                         // Multiply the final direct lighting by the transmittance
                                         TSpectral Ld = throughput * (ls.Li / ls.pdf) * f *
-- 
2.43.0


From 614f4c290683499c5fe042e58155d8aa71b8522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 106/141] fix: point sources give the power of the time they
 are in view

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 8e2e3dd..a339aca 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -830,7 +830,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 } else {
                     dt = (params[k + 1] - params[k - 1]) / 2.0f;
                 }
-                float weight = dt / (t_end - t_start); // normalize so weights sum to ~1
+                float weight = dt; // the part of the exposure spent here
 
                 // Interpolate irradiance at this parameter value:
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
-- 
2.43.0


From 4b3ff97a8dac7efbc1cb17f6316f5471f171ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 107/141] fix: point sources on the far edge of the sensor are
 outside it

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index a339aca..634d44d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -836,7 +836,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
                 Vec3<float> dir = arc.evaluate(params[k]);
                 const Pixel& p = pixels[k];
-                if (p.x < 0.f || p.x > res_x || p.y < 0.f || p.y > res_y) {
+                if (!(p.x >= 0.f && p.x < res_x && p.y >= 0.f && p.y < res_y)) {
                     continue;
                 }
 
-- 
2.43.0


From 211925286fda9d4a8b00cd35c363a9dc4f9aaba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 108/141] fix: point sources fall on the pixels that see them

---
 include/huira_impl/render/renderer.ipp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 634d44d..694ec54 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -853,7 +853,8 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     const auto& depth_buffer = frame_buffer.depth();
     bool has_depth = frame_buffer.has_depth();
 
-    int margin = stamp_radius;
+    // A stamp's middle pixel is the one left of or above the point in half of all cases:
+    int margin = stamp_radius > 0 ? stamp_radius + 1 : 0;
 
     struct TileBuffer {
         Image<TSpectral> buf;
@@ -907,10 +908,11 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                     TSpectral power = proj.weight * proj.irradiance * projected_area;
 
                     if (stamp_radius > 0) {
-                        float floor_x = std::floor(star_p.x);
-                        float floor_y = std::floor(star_p.y);
-                        float frac_x = star_p.x - floor_x;
-                        float frac_y = star_p.y - floor_y;
+                        // Kernels are placed relative to pixel centers:
+                        float floor_x = std::floor(star_p.x - 0.5f);
+                        float floor_y = std::floor(star_p.y - 0.5f);
+                        float frac_x = star_p.x - 0.5f - floor_x;
+                        float frac_y = star_p.y - 0.5f - floor_y;
 
                         int eff_r = item.effective_radius;
 
@@ -967,8 +969,8 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                             }
                         }
                     } else {
-                        int px = static_cast<int>(std::round(star_p.x));
-                        int py = static_cast<int>(std::round(star_p.y));
+                        int px = static_cast<int>(std::floor(star_p.x));
+                        int py = static_cast<int>(std::floor(star_p.y));
                         if (px >= local_x0 && px < local_x1 && py >= local_y0 && py < local_y1) {
                             local_buf(px - local_x0, py - local_y0) += power;
                         }
-- 
2.43.0


From d9bd78ca03fbe5df23ebcd17ed483b9ebf941353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 109/141] fix: each instance of an unresolved object has its
 own irradiance

---
 include/huira/scene/scene_view_types.hpp | 1 +
 include/huira_impl/render/renderer.ipp   | 6 +-----
 include/huira_impl/scene/scene_view.ipp  | 5 +++++
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/huira/scene/scene_view_types.hpp b/include/huira/scene/scene_view_types.hpp
index 196bf34..488ab35 100644
--- a/include/huira/scene/scene_view_types.hpp
+++ b/include/huira/scene/scene_view_types.hpp
@@ -35,6 +35,7 @@ template <IsSpectral TSpectral>
 struct UnresolvedInstance {
     std::shared_ptr<UnresolvedObject<TSpectral>> unresolved_object;
     std::vector<Transform<float>> transforms; // Transform at N times
+    std::vector<TSpectral> irradiances;       // Irradiance at N times
 };
 
 /**
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 694ec54..d8c2875 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -682,8 +682,6 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     std::vector<RenderItem<TSpectral>> items;
     items.reserve(scene_view.stars_.size() + scene_view.unresolved_objects_.size());
 
-    const auto& times = scene_view.temporal_samples_;
-
     for (const auto& star : scene_view.stars_) {
         std::vector<Vec3<float>> directions(star.size());
         std::vector<TSpectral> irradiances(star.size());
@@ -696,13 +694,11 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     }
     for (const auto& instance : scene_view.unresolved_objects_) {
         std::vector<Vec3<float>> directions(instance.transforms.size());
-        std::vector<TSpectral> irradiances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
-            irradiances[i] = instance.unresolved_object->get_irradiance(times[i]);
         }
         TrajectoryArc arc(directions);
-        items.push_back({arc, irradiances, stamp_radius});
+        items.push_back({arc, instance.irradiances, stamp_radius});
     }
 
     if (items.empty()) {
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 70e9be2..6b0c21c 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -138,6 +138,11 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
         // interval
         unresolved_object.unresolved_object->resolve_irradiance(unresolved_object.transforms[0],
                                                                 lights_);
+        // The object may have other instances and appear in other views:
+        for (const auto& time : temporal_samples_) {
+            unresolved_object.irradiances.push_back(
+                unresolved_object.unresolved_object->get_irradiance(time));
+        }
     }
 
     build_tlas_();
-- 
2.43.0


From 898385bd0f110eba5e02e76a42a80de915fbf4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 110/141] fix: stars are aberrated only where everything else
 is

---
 include/huira_impl/scene/scene_view.ipp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 6b0c21c..3127768 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -122,10 +122,13 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
         std::vector<Star<TSpectral>> star_samples(temporal_samples_.size());
         for (std::size_t j = 0; j < temporal_samples_.size(); ++j) {
             // Compute stellar aberration:
-            Vec3<double> aberrated_direction =
-                compute_aberrated_direction(direction, observer_transforms[j].velocity);
+            Vec3<double> observed_direction = direction;
+            if (obs_mode == ObservationMode::ABERRATED_STATE) {
+                observed_direction =
+                    compute_aberrated_direction(direction, observer_transforms[j].velocity);
+            }
             Vec3<double> apparent_direction =
-                observer_transforms[j].rotation.inverse() * aberrated_direction;
+                observer_transforms[j].rotation.inverse() * observed_direction;
             star_samples[j] = Star<TSpectral>(apparent_direction, irradiance);
         }
 
-- 
2.43.0


From a2b7bcadddbd0bf92ae19025276c66212809d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 111/141] fix: surfaces behind an unresolved object do not hide
 it

---
 include/huira_impl/render/renderer.ipp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index d8c2875..b0bcce2 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -595,15 +595,17 @@ template <IsSpectral TSpectral>
 struct RenderItem {
     RenderItem(TrajectoryArc set_arc,
                std::vector<TSpectral> set_irradiance,
-               int set_effective_radius)
+               int set_effective_radius,
+               float set_distance = std::numeric_limits<float>::infinity())
         : arc(std::move(set_arc)), irradiance(std::move(set_irradiance)),
-          effective_radius(set_effective_radius)
+          effective_radius(set_effective_radius), distance(set_distance)
     {
     }
 
     TrajectoryArc arc;
     std::vector<TSpectral> irradiance;
     int effective_radius;
+    float distance;
 
     TSpectral interpolate_irradiances(float t) const
     {
@@ -698,7 +700,10 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
             directions[i] = glm::normalize(instance.transforms[i].position);
         }
         TrajectoryArc arc(directions);
-        items.push_back({arc, instance.irradiances, stamp_radius});
+        items.push_back({arc,
+                         instance.irradiances,
+                         stamp_radius,
+                         glm::length(instance.transforms[0].position)});
     }
 
     if (items.empty()) {
@@ -892,7 +897,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
 
                     bool unobstructed = true;
                     if (has_depth) {
-                        if (!std::isinf(depth_buffer(star_p))) {
+                        if (depth_buffer(star_p) < item.distance) {
                             unobstructed = false;
                         }
                     }
-- 
2.43.0


From 57fc2bdd8dce7430a6304a75f02c8fac906b7822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 112/141] fix: surfaces hide the stars behind them without a
 depth buffer

---
 include/huira_impl/render/renderer.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index b0bcce2..52f08b1 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -34,10 +34,16 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
 
     frame_buffer.clear();
 
+    // Surfaces hide the point sources behind them, whether or not the depth is asked for:
+    const bool has_depth = frame_buffer.has_depth();
+    frame_buffer.enable_depth();
+
     Image<TSpectral> ray_traced_power = this->path_trace_(scene_view, frame_buffer);
 
     Image<TSpectral> star_power = this->render_unresolved_(scene_view, frame_buffer);
 
+    frame_buffer.enable_depth(has_depth);
+
     if (frame_buffer.has_received_power()) {
         frame_buffer.received_power() = ray_traced_power + star_power;
     }
-- 
2.43.0


From bd639e8bbf16910c452a5a207a5d40ba1167582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 113/141] fix: asteroid distances are in astronomical units

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index c925429..919a9f1 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -179,8 +179,8 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
             double phi2 = asteroid_phi2(alpha_rad);
             double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);
 
-            double r_au = r_m * AU<double>();
-            double delta_au = delta_m * AU<double>();
+            double r_au = r_m / AU<double>();
+            double delta_au = delta_m / AU<double>();
             double apparent_visual_mag = reduced_mag + 5.0 * std::log10(r_au * delta_au);
 
             TSpectral computed_irradiance =
-- 
2.43.0


From feb433fc9df45c463ae9ade2b8c4c8b330d9095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 114/141] fix: the H-G phase function has its defined constant

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index 919a9f1..28f1234 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -25,7 +25,7 @@ namespace huira {
 static inline double asteroid_phi1(double alpha)
 {
     double A = 3.33;
-    double B = 0.64;
+    double B = 0.63;
     return std::exp(-A * std::pow(std::tan(alpha / 2.), B));
 };
 
-- 
2.43.0


From 68675939bcb13b1c3671e32c8485ace0bcfef81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 115/141] fix: spheres at full and new phase have a phase

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 01292a0..d12da7c 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <vector>
@@ -137,7 +138,7 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral incident_irradiance =
                 light_->irradiance_at(self_transform.position, light_inst.transforms[0]);
 
-            float phase = std::acos(glm::dot(V, L));
+            float phase = std::acos(std::clamp(glm::dot(V, L), -1.f, 1.f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
-- 
2.43.0


From 16dcf61dba1d91d69e520645e1bded27646e8cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 116/141] fix: spheres at new phase reflect nothing instead of
 less

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index d12da7c..024fef6 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -25,7 +25,8 @@ namespace huira {
  */
 static inline float lambert_phase_function(float phase)
 {
-    return (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>();
+    return std::max(
+        0.f, (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>());
 };
 
 /**
-- 
2.43.0


From 83c83c319b94774cde04ec3208acb3c5998e80b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 117/141] fix: Lambertian spheres reflect all the light their
 albedo gives

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 024fef6..a282199 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -144,8 +144,9 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
 
+            // The phase function averages 3/8 over all directions:
             TSpectral reflected_irradiance =
-                reflectedPower / (4 * PI<float>() * distance * distance);
+                reflectedPower * (8.f / 3.f) / (4 * PI<float>() * distance * distance);
 
             if (!reflected_irradiance.valid()) {
                 HUIRA_THROW_ERROR("UnresolvedLambertianSphere::resolve_irradiance - Computed "
-- 
2.43.0


From b53bb4c0464eb83640a8cad64fc7eb43780bacda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:59 +0000
Subject: [PATCH 118/141] fix: defocus kernels hold the whole blur

---
 include/huira_impl/cameras/apertures/aperture.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/apertures/aperture.ipp b/include/huira_impl/cameras/apertures/aperture.ipp
index 298e915..e854207 100644
--- a/include/huira_impl/cameras/apertures/aperture.ipp
+++ b/include/huira_impl/cameras/apertures/aperture.ipp
@@ -31,7 +31,8 @@ void Aperture<TSpectral>::build_defocus_kernel(units::Diopter defocus,
     }
 
     defocus_cache_.radius = blur_radius_pixels;
-    defocus_cache_.half_extent = std::max(1, static_cast<int>(std::ceil(blur_radius_pixels)));
+    // The banks move the blur by up to a pixel, and its edge is half a pixel wide:
+    defocus_cache_.half_extent = static_cast<int>(std::ceil(blur_radius_pixels + 0.5f));
     defocus_cache_.banks = banks;
     defocus_cache_.dim = 2 * defocus_cache_.half_extent + 1;
 
-- 
2.43.0


From 5d095f29d65b9ae4e082353172aabd847b8ed355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 119/141] fix: camera rays start inside their pixels

---
 include/huira_impl/render/renderer.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 52f08b1..d6370f6 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -147,8 +147,12 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                         for (int s = 0; s < spp_; ++s) {
                             // Jittered sub-pixel sample:
-                            float sx = static_cast<float>(x) + sampler.get_1d();
-                            float sy = static_cast<float>(y) + sampler.get_1d();
+                            float fx = static_cast<float>(x);
+                            float fy = static_cast<float>(y);
+                            float sx = std::min(fx + sampler.get_1d(),
+                                                std::nextafter(fx + 1.0f, 0.0f));
+                            float sy = std::min(fy + sampler.get_1d(),
+                                                std::nextafter(fy + 1.0f, 0.0f));
 
                             // Generate camera ray from pixel coordinates:
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
-- 
2.43.0


From 900fa4298695ac33eae7de83a519c2a02adf205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 120/141] fix: renaming cannot leave an object nameless or take
 another scene's

---
 include/huira_impl/scene/name_registry.ipp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index b59311a..da9c9c2 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -68,12 +68,19 @@ bool NameRegistry<T>::contains(const std::shared_ptr<T>& object) const
 template <typename T>
 void NameRegistry<T>::set_name(std::shared_ptr<T> object, std::string name)
 {
+    if (!contains(object)) {
+        HUIRA_THROW_ERROR(object->get_info() + " does not exist in the scene");
+    }
     std::string old_name = object->name();
-
     if (name == old_name) {
         return;
     }
-
+    if (name.empty()) {
+        name = object->type() + "." + std::to_string(object->id());
+        if (name == old_name) {
+            return;
+        }
+    }
     std::string new_name = make_unique_name_(name);
 
     name_registry_.erase(old_name);
-- 
2.43.0


From 82610f27eb07d67faad7aed270c98fd135e49cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 121/141] fix: a deleted primitive is removed from the models
 that use it

---
 include/huira/assets/model.hpp          | 1 +
 include/huira_impl/scene/frame_node.ipp | 3 ++-
 include/huira_impl/scene/scene.ipp      | 5 +++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/huira/assets/model.hpp b/include/huira/assets/model.hpp
index 8cddd63..2473366 100644
--- a/include/huira/assets/model.hpp
+++ b/include/huira/assets/model.hpp
@@ -61,6 +61,7 @@ class Model : public SceneObject<Model<TSpectral>> {
     void print_node_(const Node<TSpectral>* node, const std::string& prefix, bool is_last) const;
 
     friend class ModelLoader<TSpectral>;
+    friend class Scene<TSpectral>;
     friend class SceneView<TSpectral>;
 };
 
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index 86624ca..4167235 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -158,7 +158,8 @@ void FrameNode<TSpectral>::disown_(const std::shared_ptr<Node<TSpectral>>& node)
     for (const auto& child : node->get_children()) {
         disown_(child);
     }
-    if (this->scene_->node_registry_.contains(node)) {
+    // The graph of a model has no scene of its own:
+    if (this->scene_ && this->scene_->node_registry_.contains(node)) {
         this->scene_->node_registry_.remove(node); // named nodes only
     }
     node->set_scene_owned(false);
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index eb4445d..f84b55a 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -1149,6 +1149,11 @@ void Scene<TSpectral>::prune_graph_references_(TAssetPtr target_ptr)
     if (root_node_) {
         prune_references(root_node_.get());
     }
+    for (const auto& model : models_) {
+        if (model->root_node_) {
+            prune_references(model->root_node_.get());
+        }
+    }
 }
 
 /**
-- 
2.43.0


From a5315e5d22951508220da4e93fd5936b68154004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 122/141] fix: an object is in a scene once, and owned while it
 is

---
 include/huira_impl/scene/name_registry.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index da9c9c2..31c40c0 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -16,9 +16,13 @@ namespace huira {
 template <typename T>
 void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
 {
+    if (contains(object)) {
+        HUIRA_THROW_ERROR(object->get_info() + " is already in the scene");
+    }
     if (name.empty()) {
         name = object->type() + "." + std::to_string(object->id());
     }
+    object->set_scene_owned(true);
     objects_.push_back(object);
 
     name = make_unique_name_(name);
-- 
2.43.0


From 91a83d3f91246df8648910516b35f427e1a4294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 123/141] fix: models with mirrored nodes load

---
 include/huira_impl/assets/io/model_loader.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 1e279f4..ca1c297 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -321,10 +321,14 @@ Transform<double> ModelLoader<TSpectral>::convert_transform_(const aiMatrix4x4&
     double scale_y = std::sqrt(col1.x * col1.x + col1.y * col1.y + col1.z * col1.z);
     double scale_z = std::sqrt(col2.x * col2.x + col2.y * col2.y + col2.z * col2.z);
 
+    // A mirroring is a negative scale, not a rotation:
+    if (glm::dot(glm::cross(col0, col1), col2) < 0.0) {
+        scale_x = -scale_x;
+    }
     transform.scale = Vec3<double>{scale_x, scale_y, scale_z};
 
     // Normalize the basis vectors to get the rotation matrix
-    if (scale_x > 1e-10) {
+    if (std::abs(scale_x) > 1e-10) {
         col0.x /= scale_x;
         col0.y /= scale_x;
         col0.z /= scale_x;
-- 
2.43.0


From bfc6c8d108aaf02d6f8431fceddb15ffb5d131fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 124/141] fix: emissive textures of models are read, as colours

---
 include/huira_impl/assets/io/model_loader.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index ca1c297..f8e37b2 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -463,8 +463,12 @@ void ModelLoader<TSpectral>::process_materials_(LoadContext& ctx)
         }
 
         // Assign emissive:
+        // (glTF and most other formats give it as the older of the two types)
+        const aiTextureType emissive_type =
+            ai_mat->GetTextureCount(aiTextureType_EMISSION_COLOR) > 0 ? aiTextureType_EMISSION_COLOR
+                                                                      : aiTextureType_EMISSIVE;
         if (auto [tex, _] = load_material_texture_<TSpectral>(
-                ai_mat, aiTextureType_EMISSION_COLOR, ctx, false, false);
+                ai_mat, emissive_type, ctx, false, true);
             tex) {
             material.set_emissive_image(tex.value());
         }
-- 
2.43.0


From 79f54b0878985de9f994a807114e76dbe601a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 125/141] fix: colours of textures embedded in models are
 linear as those in files

---
 include/huira_impl/assets/io/model_loader.ipp | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index f8e37b2..d0ce0f0 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -615,6 +615,20 @@ inline Image<Vec3<float>> rgb_to_vec3_(const Image<RGB>& rgb)
     return result;
 }
 
+/// Convert colors to linear RGB, if they are not
+inline void linearize_(ImageBundle<RGB>& bundle)
+{
+    if (bundle.color_space != ColorSpaceHint::sRGB) {
+        return;
+    }
+    for (std::size_t i = 0; i < bundle.image.size(); ++i) {
+        bundle.image[i][0] = srgb_to_linear(bundle.image[i][0]);
+        bundle.image[i][1] = srgb_to_linear(bundle.image[i][1]);
+        bundle.image[i][2] = srgb_to_linear(bundle.image[i][2]);
+    }
+    bundle.color_space = ColorSpaceHint::Linear;
+}
+
 template <IsSpectral TSpectral, typename TPixel>
 std::pair<Image<TPixel>, Image<float>>
 convert_embedded_raw_(const aiTexture* embedded,
@@ -764,6 +778,9 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
                 if constexpr (std::is_same_v<TPixel, TSpectral>) {
                     ImageBundle<RGB> bundle_rgb =
                         load_rgb_from_buffer_(data, size, format, read_alpha);
+                    if (is_color_data) {
+                        linearize_(bundle_rgb);
+                    }
                     bundle.image =
                         Image<TSpectral>(bundle_rgb.image.width(), bundle_rgb.image.height());
                     for (int y = 0; y < bundle_rgb.image.height(); ++y) {
@@ -822,13 +839,8 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
             if constexpr (std::is_same_v<TPixel, TSpectral>) {
                 ImageBundle<RGB> bundle_rgb = load_rgb_from_file_(resolved_path, read_alpha);
 
-                if (is_color_data && bundle_rgb.color_space == ColorSpaceHint::sRGB) {
-                    for (std::size_t i = 0; i < bundle_rgb.image.size(); ++i) {
-                        bundle_rgb.image[i][0] = srgb_to_linear(bundle_rgb.image[i][0]);
-                        bundle_rgb.image[i][1] = srgb_to_linear(bundle_rgb.image[i][1]);
-                        bundle_rgb.image[i][2] = srgb_to_linear(bundle_rgb.image[i][2]);
-                    }
-                    bundle_rgb.color_space = ColorSpaceHint::Linear;
+                if (is_color_data) {
+                    linearize_(bundle_rgb);
                 }
 
                 bundle.image =
-- 
2.43.0


From 942e7a7e46c568a59b18ab4fd118865ceed3e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 126/141] fix: an image that a model uses in two ways is read
 for both

---
 include/huira_impl/assets/io/model_loader.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index d0ce0f0..9615a7e 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -468,7 +468,7 @@ void ModelLoader<TSpectral>::process_materials_(LoadContext& ctx)
             ai_mat->GetTextureCount(aiTextureType_EMISSION_COLOR) > 0 ? aiTextureType_EMISSION_COLOR
                                                                       : aiTextureType_EMISSIVE;
         if (auto [tex, _] = load_material_texture_<TSpectral>(
-                ai_mat, emissive_type, ctx, false, true);
+                ai_mat, emissive_type, ctx, true, true); // (another material may use the alpha)
             tex) {
             material.set_emissive_image(tex.value());
         }
@@ -741,7 +741,9 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
 
     // Check deduplication cache
     auto& cache = get_texture_cache_<TPixel>(ctx);
-    auto cache_it = cache.find(tex_path_str);
+    const std::string cache_key =
+        tex_type == aiTextureType_NORMALS ? tex_path_str + "_normals" : tex_path_str;
+    auto cache_it = cache.find(cache_key);
     if (cache_it != cache.end()) {
         main_handle = cache_it->second;
 
@@ -884,7 +886,7 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
         }
         return ctx.scene->add_texture(std::move(bundle.image), tex_name);
     }();
-    cache.emplace(tex_path_str, handle);
+    cache.emplace(cache_key, handle);
     main_handle = handle;
 
     // Register Alpha Texture
-- 
2.43.0


From 9c5cb196b1836ba756bd7dfdcbf189a3e922d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 127/141] fix: rays that pass a surface always get past it

---
 include/huira/render/interaction.hpp      | 10 +++++++
 include/huira_impl/render/interaction.ipp | 33 +++++++++++++++++++++++
 include/huira_impl/render/renderer.ipp    |  8 ++++--
 include/huira_impl/scene/scene_view.ipp   | 12 +++++++--
 4 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/include/huira/render/interaction.hpp b/include/huira/render/interaction.hpp
index 9c13d69..9294dc4 100644
--- a/include/huira/render/interaction.hpp
+++ b/include/huira/render/interaction.hpp
@@ -58,6 +58,16 @@ inline void build_default_tangent_frame(const Vec3<float>& normal_s,
  */
 template <IsFloatingPoint T>
 inline Vec3<T> offset_intersection_(Vec3<T> intersection, const Vec3<T>& N);
+
+/**
+ * @brief Origin from which a ray continues straight through a surface it met.
+ */
+template <IsFloatingPoint T>
+inline Vec3<T> pass_through_origin_(const Vec3<T>& origin,
+                                    const Vec3<T>& direction,
+                                    T t,
+                                    const Vec3<T>& intersection,
+                                    const Vec3<T>& N);
 } // namespace huira
 
 #include "huira_impl/render/interaction.ipp"
diff --git a/include/huira_impl/render/interaction.ipp b/include/huira_impl/render/interaction.ipp
index 5004307..94aaf25 100644
--- a/include/huira_impl/render/interaction.ipp
+++ b/include/huira_impl/render/interaction.ipp
@@ -2,6 +2,7 @@
 #include <cmath>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <type_traits>
 
 #include "huira/concepts/numeric_concepts.hpp"
@@ -130,4 +131,36 @@ inline Vec3<T> offset_intersection_(Vec3<T> intersection, const Vec3<T>& N)
                    offset(intersection.y, N.y),
                    offset(intersection.z, N.z)};
 }
+
+/**
+ * @brief Origin from which a ray continues straight through a surface it met.
+ *
+ * This is the offset intersection point, unless that lies before the hit: where the rounding of a
+ * surface's coordinates exceeds the offset, the ray would meet the same surface again from the same
+ * point for ever. It then continues just past the hit instead.
+ *
+ * @tparam T Floating-point type
+ * @param origin The origin of the ray
+ * @param direction The direction of the ray
+ * @param t The ray parameter of the hit
+ * @param intersection The intersection point
+ * @param N The geometric normal at the intersection, on the side the ray leaves to
+ * @return Vec3<T> Origin of the continued ray
+ */
+template <IsFloatingPoint T>
+inline Vec3<T> pass_through_origin_(const Vec3<T>& origin,
+                                    const Vec3<T>& direction,
+                                    T t,
+                                    const Vec3<T>& intersection,
+                                    const Vec3<T>& N)
+{
+    const Vec3<T> next = offset_intersection_(intersection, N);
+    const T length_sq = glm::dot(direction, direction);
+    if (glm::dot(next - origin, direction) > T{0.5} * t * length_sq) {
+        return next;
+    }
+    const T step = T{4} * std::numeric_limits<T>::epsilon() *
+                   (glm::length(origin) + glm::length(next - origin));
+    return origin + direction * (t + step / std::sqrt(length_sq));
+}
 } // namespace huira
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index d6370f6..df8cac6 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -352,8 +352,12 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                 (glm::dot(ray.direction(), isect.normal_g) < 0.0f)
                                                     ? -isect.normal_g
                                                     : isect.normal_g;
-                                            Vec3<float> pass_through_origin = offset_intersection_(
-                                                isect.position, pass_through_normal);
+                                            Vec3<float> pass_through_origin =
+                                                pass_through_origin_(ray.origin(),
+                                                                     ray.direction(),
+                                                                     hit.t,
+                                                                     isect.position,
+                                                                     pass_through_normal);
 
                                             ray = Ray<TSpectral>(pass_through_origin,
                                                                  ray.direction());
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 3127768..aa0dca0 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -297,7 +297,11 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
                 Vec3<float> bounce_normal =
                     (glm::dot(current_ray.direction(), isect.normal_g) < 0.0f) ? -isect.normal_g
                                                                                : isect.normal_g;
-                current_ray = Ray<TSpectral>(offset_intersection_(isect.position, bounce_normal),
+                current_ray = Ray<TSpectral>(pass_through_origin_(current_ray.origin(),
+                                                                  current_ray.direction(),
+                                                                  hit.t,
+                                                                  isect.position,
+                                                                  bounce_normal),
                                              current_ray.direction());
 
                 stack.toggle(batch.primitive.get());
@@ -317,7 +321,11 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
         Vec3<float> bounce_normal = (glm::dot(current_ray.direction(), isect.normal_g) < 0.0f)
                                         ? -isect.normal_g
                                         : isect.normal_g;
-        current_ray = Ray<TSpectral>(offset_intersection_(isect.position, bounce_normal),
+        current_ray = Ray<TSpectral>(pass_through_origin_(current_ray.origin(),
+                                                          current_ray.direction(),
+                                                          hit.t,
+                                                          isect.position,
+                                                          bounce_normal),
                                      current_ray.direction());
 
         stack.toggle(batch.primitive.get());
-- 
2.43.0


From 42d85791bda7c3daf4e06a5212bccfe2fd9d3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 128/141] fix: a light seen by the camera hides the point
 sources behind it

---
 include/huira_impl/render/renderer.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index df8cac6..82fc9c8 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -328,6 +328,12 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         indirect_radiance += final_radiance;
                                     }
 
+                                    // A light hides what is behind it:
+                                    if (bounce == 0) {
+                                        closest_depth =
+                                            std::min(closest_depth, distance_before + hit.t);
+                                    }
+
                                     // Terminate for hitting light:
                                     break;
                                 } else {
-- 
2.43.0


From a14611c108a6ede6a129f5518b3b388c197d1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 129/141] fix: an aperture PSF that cannot be made leaves the
 camera as it was

---
 include/huira_impl/cameras/camera_model.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 406a88c..e822432 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -314,11 +314,11 @@ void CameraModel<TSpectral>::set_psf(Args&&... args)
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::use_aperture_psf(int radius, int banks)
 {
-    use_aperture_psf_ = true;
     units::Meter f(focal_length_);
     units::Meter px(sensor_->pixel_pitch().x);
     units::Meter py(sensor_->pixel_pitch().y);
     psf_ = aperture_->make_psf(f, px, py, radius, banks);
+    use_aperture_psf_ = true;
 }
 
 /**
-- 
2.43.0


From b1fba7322ca874718749def06876867303446593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 130/141] fix: refuse a PSF with a negative radius or without
 banks

---
 include/huira_impl/cameras/psfs/psf.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/huira_impl/cameras/psfs/psf.ipp b/include/huira_impl/cameras/psfs/psf.ipp
index 3a94160..bad936b 100644
--- a/include/huira_impl/cameras/psfs/psf.ipp
+++ b/include/huira_impl/cameras/psfs/psf.ipp
@@ -1,6 +1,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <string>
 
 #include "huira/images/image.hpp"
 #include "huira/images/io/png_io.hpp"
@@ -21,6 +22,12 @@ namespace huira {
 template <IsSpectral TSpectral>
 void PSF<TSpectral>::build_polyphase_cache(int radius, int banks)
 {
+    if (radius < 0 || banks < 1) {
+        HUIRA_THROW_ERROR("PSF::build_polyphase_cache - Radius must not be negative and at least "
+                          "one bank is needed: radius " +
+                          std::to_string(radius) + ", banks " + std::to_string(banks));
+    }
+
     cache_.radius = radius;
     cache_.banks = banks;
     cache_.dim = 2 * radius + 1;
-- 
2.43.0


From 6384be41cf393e2e99c3612c7c9bfa4d17fc017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 131/141] fix: asking an invalid texture handle for its
 resolution throws

---
 include/huira/handles/materials/texture_handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/handles/materials/texture_handle.hpp b/include/huira/handles/materials/texture_handle.hpp
index 6fb46b1..76338e8 100644
--- a/include/huira/handles/materials/texture_handle.hpp
+++ b/include/huira/handles/materials/texture_handle.hpp
@@ -22,6 +22,6 @@ class TextureHandle : public Handle<Texture<TPixel>> {
     TextureHandle() = delete;
     using Handle<Texture<TPixel>>::Handle;
 
-    Resolution resolution() const noexcept { return this->get_()->resolution(); }
+    Resolution resolution() const { return this->get_()->resolution(); }
 };
 } // namespace huira
-- 
2.43.0


From 05028c959ffd18fb4df98c38e51de690ff6f44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:14 +0000
Subject: [PATCH 132/141] fix: a visual magnitude gives a band the same flux
 whatever the other bands are

---
 include/huira_impl/core/physics.ipp | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index b25f37d..cbe9a77 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -167,7 +167,6 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
 {
     // Solar spectral shape (coarse, in arbitrary radiance units — only ratios matter):
     TSpectral solar_template = black_body<TSpectral>(5778.0, 100);
-    double solar_total = static_cast<double>(solar_template.total());
 
     // Fine-sample the solar spectrum convolved with V-band response:
     constexpr std::size_t N = 500;
@@ -182,30 +181,11 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
     }
     double solar_vband_weighted = integrate(vband_lambda, weighted);
 
-    auto bins = TSpectral::get_all_bins();
-    double lambda_min = bins[0].min_wavelength;
-    double lambda_max = bins[0].max_wavelength;
-    for (std::size_t i = 1; i < TSpectral::size(); ++i) {
-        if (bins[i].min_wavelength < lambda_min) {
-            lambda_min = bins[i].min_wavelength;
-        }
-        if (bins[i].max_wavelength > lambda_max) {
-            lambda_max = bins[i].max_wavelength;
-        }
-    }
-
-    auto full_lambda = linspace(lambda_min, lambda_max, N);
-    auto solar_full = plancks_law(5778.0, full_lambda);
-    double solar_full_integral = integrate(full_lambda, solar_full);
-
     // V-band observed photon flux:
     double observed_vband_flux = v_band_irradiance(visual_magnitude);
 
-    // Total photon flux across all wavelengths, assuming solar spectrum:
-    double total_flux = observed_vband_flux * solar_full_integral / solar_vband_weighted;
-
-    // Distribute across bins proportionally to solar template:
-    double scale = total_flux / solar_total;
+    // Each bin holds the photons of its own band (there may be gaps between the bins):
+    double scale = observed_vband_flux / solar_vband_weighted;
 
     TSpectral photon_counts = solar_template * static_cast<float>(scale) * albedo;
     TSpectral irradiance = photon_counts * TSpectral::photon_energies();
-- 
2.43.0


From 92870a7fd4c4f966c900ee659e77eedfc0bf69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 133/141] fix: colours of model textures with a gamma or a
 profile are linearised

---
 include/huira_impl/assets/io/model_loader.ipp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 9615a7e..41d91fc 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -618,13 +618,18 @@ inline Image<Vec3<float>> rgb_to_vec3_(const Image<RGB>& rgb)
 /// Convert colors to linear RGB, if they are not
 inline void linearize_(ImageBundle<RGB>& bundle)
 {
-    if (bundle.color_space != ColorSpaceHint::sRGB) {
+    if (bundle.color_space == ColorSpaceHint::Linear) {
         return;
     }
+    const bool is_gamma = bundle.color_space == ColorSpaceHint::Gamma;
+    const auto to_linear = [&](float v) {
+        // (colors of an unknown space, such as one given by a profile, are taken for sRGB)
+        return is_gamma ? std::pow(v, bundle.gamma_value) : srgb_to_linear(v);
+    };
     for (std::size_t i = 0; i < bundle.image.size(); ++i) {
-        bundle.image[i][0] = srgb_to_linear(bundle.image[i][0]);
-        bundle.image[i][1] = srgb_to_linear(bundle.image[i][1]);
-        bundle.image[i][2] = srgb_to_linear(bundle.image[i][2]);
+        bundle.image[i][0] = to_linear(bundle.image[i][0]);
+        bundle.image[i][1] = to_linear(bundle.image[i][1]);
+        bundle.image[i][2] = to_linear(bundle.image[i][2]);
     }
     bundle.color_space = ColorSpaceHint::Linear;
 }
-- 
2.43.0


From 224301fb4d04e55e34947b1d5f33e0b0fc67a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:53 +0000
Subject: [PATCH 134/141] fix: a CLI command that fails with an exception
 reports it instead of aborting

---
 apps/huira_cli/cli.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/huira_cli/cli.cpp b/apps/huira_cli/cli.cpp
index a79aca6..5692210 100644
--- a/apps/huira_cli/cli.cpp
+++ b/apps/huira_cli/cli.cpp
@@ -1,5 +1,7 @@
 #include "huira_cli/cli.hpp"
 
+#include <exception>
+
 #include "tclap/CmdLine.h"
 
 namespace huira::cli {
@@ -60,7 +62,12 @@ int Registry::dispatch(int argc, char** argv)
     int sub_argc = argc - sub_start;
     char** sub_argv = argv + sub_start;
 
-    return it->second.run(ctx, sub_argc, sub_argv);
+    try {
+        return it->second.run(ctx, sub_argc, sub_argv);
+    } catch (const std::exception& e) {
+        std::cerr << "Error: " << e.what() << "\n";
+        return 1;
+    }
 }
 
 void Registry::print_help(std::ostream& os) const
-- 
2.43.0


From 392fd969a33d2de95faff64691109e9102db56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:53 +0000
Subject: [PATCH 135/141] fix: the CLI shows the cursor again when a command
 with a progress bar fails

---
 apps/huira_cli/commands/fetch_tycho2.cpp   |  2 +-
 apps/huira_cli/commands/process_tycho2.cpp |  2 +-
 apps/huira_cli/progress_bar.hpp            | 21 +++++++++++++++------
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index e710e9e..21868e5 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -121,7 +121,7 @@ int fetch_tycho2(
     std::size_t file_count = tycho2_dat_files.size() + tycho2_suppl_files.size();
 
     // Create progress bar for non-verbose mode
-    std::unique_ptr<indicators::ProgressBar> bar;
+    ProgressBarPtr bar;
     if (!ctx.verbose) {
         bar = make_progress_bar("Tycho-2 Download ", file_count);
     }
diff --git a/apps/huira_cli/commands/process_tycho2.cpp b/apps/huira_cli/commands/process_tycho2.cpp
index 29bcc0d..f2b39ed 100644
--- a/apps/huira_cli/commands/process_tycho2.cpp
+++ b/apps/huira_cli/commands/process_tycho2.cpp
@@ -35,7 +35,7 @@ int process_tycho2(const fs::path& input_dir,
 
     std::size_t file_count = tycho2_dat_files.size() + tycho2_suppl_files.size();
 
-    std::unique_ptr<indicators::ProgressBar> bar;
+    ProgressBarPtr bar;
     if (!ctx.verbose) {
         bar = make_progress_bar("Tycho-2 Process  ", file_count + 1);
     }
diff --git a/apps/huira_cli/progress_bar.hpp b/apps/huira_cli/progress_bar.hpp
index ed88c14..ebfe1b6 100644
--- a/apps/huira_cli/progress_bar.hpp
+++ b/apps/huira_cli/progress_bar.hpp
@@ -4,11 +4,20 @@
 #include "indicators/progress_bar.hpp"
 
 namespace huira::cli {
-inline std::unique_ptr<indicators::ProgressBar> make_progress_bar(const std::string& title,
-                                                                  size_t total)
+// Shows the cursor again when the bar goes away, however the command ends
+struct ProgressBarDeleter {
+    void operator()(indicators::ProgressBar* bar) const
+    {
+        delete bar;
+        indicators::show_console_cursor(true);
+    }
+};
+using ProgressBarPtr = std::unique_ptr<indicators::ProgressBar, ProgressBarDeleter>;
+
+inline ProgressBarPtr make_progress_bar(const std::string& title, size_t total)
 {
     indicators::show_console_cursor(false);
-    return std::make_unique<indicators::ProgressBar>(
+    return ProgressBarPtr(new indicators::ProgressBar(
         indicators::option::BarWidth{50},
         indicators::option::Start{"["},
         indicators::option::Fill{"="},
@@ -18,7 +27,7 @@ inline std::unique_ptr<indicators::ProgressBar> make_progress_bar(const std::str
         indicators::option::PrefixText{title},
         indicators::option::ShowPercentage{true},
         indicators::option::ShowElapsedTime{true},
-        indicators::option::MaxProgress{static_cast<int>(total) + 1});
+        indicators::option::MaxProgress{static_cast<int>(total) + 1}));
 }
 
 inline std::string truncate_postfix(const std::string& postfix, size_t max_len = 40)
@@ -29,13 +38,13 @@ inline std::string truncate_postfix(const std::string& postfix, size_t max_len =
     return postfix.substr(0, max_len - 3) + "...";
 }
 
-inline void update_bar(std::unique_ptr<indicators::ProgressBar>& bar, const std::string& postfix)
+inline void update_bar(ProgressBarPtr& bar, const std::string& postfix)
 {
     bar->set_option(indicators::option::PostfixText{truncate_postfix(postfix)});
     bar->tick();
 }
 
-inline void finish_bar(std::unique_ptr<indicators::ProgressBar>& bar, const std::string& postfix)
+inline void finish_bar(ProgressBarPtr& bar, const std::string& postfix)
 {
     bar->set_option(indicators::option::PostfixText{postfix});
     if (!bar->is_completed()) {
-- 
2.43.0


From 010025d3042c26987b1bbbff92a58b4f9b0dfdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:53 +0000
Subject: [PATCH 136/141] fix: a download whose last bytes could not be written
 is a failure

---
 apps/huira_cli/commands/fetch_tycho2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index 21868e5..b8e0c50 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -91,8 +91,10 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
     curl_easy_cleanup(curl);
     out.close();
 
-    if (res != CURLE_OK) {
-        std::cerr << "Download failed: " << curl_easy_strerror(res) << "\n";
+    if (res != CURLE_OK || !out) {
+        std::cerr << "Download failed: "
+                  << (res != CURLE_OK ? curl_easy_strerror(res) : "could not write the file")
+                  << "\n";
         fs::remove(dest);
         return false;
     }
-- 
2.43.0


From 786c0c653ee14bf9b8bfb104df75c1f77bda8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:53 +0000
Subject: [PATCH 137/141] fix: fetch-tycho2 creates an output directory whose
 name has a dot

---
 apps/huira_cli/commands/fetch_tycho2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index b8e0c50..4c18793 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -5,7 +5,6 @@
 #include <stdexcept>
 
 #include "curl/curl.h"
-#include "huira/util/paths.hpp"
 #include "huira_cli/cli.hpp"
 #include "huira_cli/commands/tycho2.hpp"
 #include "huira_cli/compact_output.hpp"
@@ -105,7 +104,10 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
 int fetch_tycho2(
     const fs::path& output_dir, const Context& ctx, bool force, bool process, bool clean)
 {
-    huira::make_path(output_dir);
+    // Always a directory, also when its name has a dot (make_path would take that for a file)
+    if (!output_dir.empty()) {
+        fs::create_directories(output_dir);
+    }
 
     constexpr std::string_view base_url = "https://cdsarc.cds.unistra.fr/viz-bin/nph-Cat/txt?I/259";
 
-- 
2.43.0


From 684c07cbee3d5bdf820505092d7b50eb6fdc27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:00 +0000
Subject: [PATCH 138/141] fix: an interrupted download does not pass for the
 complete file

---
 apps/huira_cli/commands/fetch_tycho2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index 4c18793..6df0c74 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -72,9 +72,12 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
     }
 #endif
 
-    std::ofstream out(dest, std::ios::binary);
+    // Written under another name until complete: an interrupted download must not pass for the file
+    fs::path part = dest;
+    part += ".part";
+    std::ofstream out(part, std::ios::binary);
     if (!out) {
-        std::cerr << "Failed to open output file: " << dest << "\n";
+        std::cerr << "Failed to open output file: " << part << "\n";
         curl_easy_cleanup(curl);
         return false;
     }
@@ -94,10 +97,11 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
         std::cerr << "Download failed: "
                   << (res != CURLE_OK ? curl_easy_strerror(res) : "could not write the file")
                   << "\n";
-        fs::remove(dest);
+        fs::remove(part);
         return false;
     }
 
+    fs::rename(part, dest);
     return true;
 }
 
-- 
2.43.0


From f57b57efe800e4047691c262af0e32cffaedb4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:52 +0000
Subject: [PATCH 139/141] fix: textures of models named by an escaped URI are
 found

---
 include/huira_impl/assets/io/model_loader.ipp | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 41d91fc..7ce615e 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cctype>
 #include <cmath>
 #include <string>
 
@@ -677,6 +678,23 @@ convert_embedded_raw_(const aiTexture* embedded,
     return {std::move(result), std::move(alpha_result)};
 }
 
+/// Replace the %XX escapes of a URI by the characters they stand for
+inline std::string decode_uri_(const std::string& uri)
+{
+    std::string result;
+    for (std::size_t i = 0; i < uri.size(); ++i) {
+        if (uri[i] == '%' && i + 2 < uri.size() &&
+            std::isxdigit(static_cast<unsigned char>(uri[i + 1])) &&
+            std::isxdigit(static_cast<unsigned char>(uri[i + 2]))) {
+            result += static_cast<char>(std::stoi(uri.substr(i + 1, 2), nullptr, 16));
+            i += 2;
+        } else {
+            result += uri[i];
+        }
+    }
+    return result;
+}
+
 /// Extract green channel from an RGB image (for GLTF roughness)
 inline Image<float> extract_green_channel_(const Image<RGB>& rgb)
 {
@@ -832,6 +850,10 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
         }
     } else {
         fs::path resolved_path = ctx.base_directory / tex_path_str;
+        if (!fs::exists(resolved_path)) {
+            // glTF files name images by URI ("my%20texture.png"), which ASSIMP leaves encoded
+            resolved_path = ctx.base_directory / decode_uri_(tex_path_str);
+        }
         if (!fs::exists(resolved_path)) {
             resolved_path = fs::path(tex_path_str);
         }
-- 
2.43.0


From 8facceb22b1f439d6a4b913a2175c78e7d67dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:33 +0000
Subject: [PATCH 140/141] fix: the library can be used in several source files
 of one program

---
 include/huira/util/logger.hpp                |  2 +-
 include/huira_impl/platform/get_exe_path.ipp |  2 +-
 include/huira_impl/platform/info.ipp         | 10 ++--
 include/huira_impl/render/trajectory_arc.ipp | 24 +++++-----
 include/huira_impl/stars/io/load_tycho2.ipp  |  4 +-
 include/huira_impl/stars/io/star_catalog.ipp |  2 +-
 include/huira_impl/util/logger.ipp           | 48 ++++++++++----------
 include/huira_impl/util/paths.ipp            | 14 +++---
 8 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index e0d8249..b66051c 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -310,7 +310,7 @@ inline void enable_console_warning(bool enable = true)
     } while (0)
 
 namespace huira {
-std::vector<const char*>& get_thread_scope_stack()
+inline std::vector<const char*>& get_thread_scope_stack()
 {
     thread_local std::vector<const char*> scope_stack;
     return scope_stack;
diff --git a/include/huira_impl/platform/get_exe_path.ipp b/include/huira_impl/platform/get_exe_path.ipp
index 2176856..5128372 100644
--- a/include/huira_impl/platform/get_exe_path.ipp
+++ b/include/huira_impl/platform/get_exe_path.ipp
@@ -17,7 +17,7 @@
 #endif
 
 namespace huira {
-std::string get_executable_path()
+inline std::string get_executable_path()
 {
 #ifdef _WIN32
     char path[MAX_PATH];
diff --git a/include/huira_impl/platform/info.ipp b/include/huira_impl/platform/info.ipp
index d3dd4b2..f3ff603 100644
--- a/include/huira_impl/platform/info.ipp
+++ b/include/huira_impl/platform/info.ipp
@@ -15,7 +15,7 @@
 #endif
 
 namespace huira {
-std::string get_platform()
+inline std::string get_platform()
 {
 #ifdef _WIN32
     return "Windows";
@@ -28,7 +28,7 @@ std::string get_platform()
 #endif
 }
 
-std::string get_compiler_info()
+inline std::string get_compiler_info()
 {
 #ifdef _MSC_VER
     return "MSVC " + std::to_string(_MSC_VER);
@@ -41,7 +41,7 @@ std::string get_compiler_info()
 #endif
 }
 
-std::string get_memory_usage()
+inline std::string get_memory_usage()
 {
     std::string output;
 
@@ -89,7 +89,7 @@ std::string get_memory_usage()
     return output;
 }
 
-std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
+inline std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
                                const std::string fmt)
 {
     auto time_t = std::chrono::system_clock::to_time_t(tp);
@@ -112,7 +112,7 @@ std::string get_time_as_string(const std::chrono::system_clock::time_point& tp,
     return oss.str();
 }
 
-std::string get_time_as_string(const std::string& fmt)
+inline std::string get_time_as_string(const std::string& fmt)
 {
     return get_time_as_string(std::chrono::system_clock::now(), fmt);
 }
diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index ced15b7..c207e74 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -15,7 +15,7 @@ namespace huira {
  *
  * @param samples Direction vectors at each sample time. Must have at least 2 elements.
  */
-TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
+inline TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
     : sample_count_(samples.size())
 {
     if (samples.size() < 1) {
@@ -35,7 +35,7 @@ TrajectoryArc::TrajectoryArc(const std::vector<Vec3<float>>& samples)
  * @param t Parameter value in [0, 1].
  * @return Interpolated direction vector.
  */
-Vec3<float> TrajectoryArc::evaluate(float t) const
+inline Vec3<float> TrajectoryArc::evaluate(float t) const
 {
     if (is_polynomial_()) {
         return evaluate_polynomial_(t);
@@ -52,7 +52,7 @@ Vec3<float> TrajectoryArc::evaluate(float t) const
  * @param plane_normal Inward-pointing normal of a plane through the origin.
  * @return Sorted list of parameter values where the crossing occurs.
  */
-std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_normal) const
+inline std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_normal) const
 {
     if (is_polynomial_()) {
         return find_crossings_polynomial_(plane_normal);
@@ -68,7 +68,7 @@ std::vector<float> TrajectoryArc::find_plane_crossings(const Vec3<float>& plane_
  *   f(t) = p0(1 - 3t + 2t^2) + p1(4t - 4t^2) + p2(-t + 2t^2)
  *   Coefficients: a0 = p0, a1 = -3*p0 + 4*p1 - p2, a2 = 2*p0 - 4*p1 + 2*p2
  */
-void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
+inline void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
 {
     if (samples.size() == 1) {
         // Constant: f(t) = p0
@@ -103,7 +103,7 @@ void TrajectoryArc::build_polynomial_(const std::vector<Vec3<float>>& samples)
  *   S_i(u) = a_i + b_i*u + c_i*u^2 + d_i*u^3
  * where u = t - knots_[i].
  */
-void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
+inline void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
 {
     const std::size_t n = samples.size();
     const std::size_t num_segments = n - 1;
@@ -164,7 +164,7 @@ void TrajectoryArc::build_cubic_spline_(const std::vector<Vec3<float>>& samples)
     }
 }
 
-Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
+inline Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
 {
     // Horner's method:
     Vec3<float> result = poly_coeffs_.back();
@@ -174,7 +174,7 @@ Vec3<float> TrajectoryArc::evaluate_polynomial_(float t) const
     return result;
 }
 
-Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
+inline Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
 {
     t = std::clamp(t, 0.0f, 1.0f);
 
@@ -198,7 +198,7 @@ Vec3<float> TrajectoryArc::evaluate_spline_(float t) const
  *
  * dot(normal, f(t)) = 0 becomes a scalar polynomial in t.
  */
-std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>& normal) const
+inline std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>& normal) const
 {
     if (poly_coeffs_.size() == 1) {
         // Constant: dot(normal, p0) is either >= 0 or < 0. No crossings.
@@ -220,7 +220,7 @@ std::vector<float> TrajectoryArc::find_crossings_polynomial_(const Vec3<float>&
  *
  * For each segment, dot(normal, S_i(u)) = 0 is a cubic in u.
  */
-std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& normal) const
+inline std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& normal) const
 {
     std::vector<float> all_roots;
     bool was_negative = false;
@@ -258,7 +258,7 @@ std::vector<float> TrajectoryArc::find_crossings_spline_(const Vec3<float>& norm
 // Root-finding utilities
 // =========================================================================
 
-std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, float t_max)
+inline std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, float t_max)
 {
     constexpr float eps = 1e-10f;
     if (std::abs(a) < eps) {
@@ -271,7 +271,7 @@ std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, f
     return {};
 }
 
-std::vector<float>
+inline std::vector<float>
 TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_max)
 {
     constexpr float eps = 1e-10f;
@@ -319,7 +319,7 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
  * Between its extrema the cubic is monotonic, so every sign change brackets exactly one root.
  * Unlike the closed form this stays accurate when a is tiny, as it is for nearly straight arcs.
  */
-std::vector<float>
+inline std::vector<float>
 TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, float t_max)
 {
     std::vector<float> bounds = solve_quadratic_(3.0f * a, 2.0f * b, c, t_min, t_max);
diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 74079ff..030504b 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -57,7 +57,7 @@ static bool is_valid_line_(const std::string& line)
     return !line.empty() && std::isdigit(static_cast<unsigned char>(line[0]));
 }
 
-std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
+inline std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
     std::vector<StarData> star_data(count_lines_(filepath) + 1); // last line may lack a new-line
     std::ifstream file(filepath);
@@ -140,7 +140,7 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
     return star_data;
 }
 
-std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
+inline std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
     std::vector<StarData> star_data(count_lines_(filepath) + 1); // last line may lack a new-line
     std::ifstream file(filepath);
diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 7610e50..f6b9b07 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -63,7 +63,7 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
                    " stars written to: " + filepath.string());
 }
 
-StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_magnitude)
+inline StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_magnitude)
 {
     std::ifstream in(filepath, std::ios::binary);
     if (!in) {
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 30e0fae..c6dae5b 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -24,7 +24,7 @@ namespace huira {
  *
  * @return std::string Formatted log entry string
  */
-std::string LogEntry::to_string() const
+inline std::string LogEntry::to_string() const
 {
     std::ostringstream oss;
     auto time_t = std::chrono::system_clock::to_time_t(timestamp);
@@ -50,7 +50,7 @@ std::string LogEntry::to_string() const
  * @param level LogLevel to convert
  * @return const char* String representation of the log level
  */
-const char* LogEntry::level_to_string(LogLevel level)
+inline const char* LogEntry::level_to_string(LogLevel level)
 {
     switch (level) {
     case LogLevel::Debug:
@@ -84,7 +84,7 @@ inline std::atomic<bool> Logger::crash_reported_{false};
  * - Debug and info console output disabled
  * - Crash handler automatically installed
  */
-Logger::Logger()
+inline Logger::Logger()
     : buffer_(1000), write_index_(0), min_level_(LogLevel::Info), crash_handler_enabled_(false),
       console_debug_(false), console_info_(false),
       console_warning_(true) // Warning is on by default
@@ -99,7 +99,7 @@ Logger::Logger()
 /**
  * @brief Destructor for the logger.
  */
-Logger::~Logger() = default;
+inline Logger::~Logger() = default;
 
 /**
  * @brief Set the minimum log level.
@@ -108,7 +108,7 @@ Logger::~Logger() = default;
  *
  * @param level Minimum severity level to log
  */
-void Logger::set_level(LogLevel level)
+inline void Logger::set_level(LogLevel level)
 {
     instance().min_level_.store(level, std::memory_order_relaxed);
 }
@@ -118,7 +118,7 @@ void Logger::set_level(LogLevel level)
  *
  * @return LogLevel Current minimum log level
  */
-LogLevel Logger::get_level()
+inline LogLevel Logger::get_level()
 {
     return instance().min_level_.load(std::memory_order_relaxed);
 }
@@ -131,7 +131,7 @@ LogLevel Logger::get_level()
  *
  * @param size New buffer size (minimum 1)
  */
-void Logger::set_buffer_size(size_t size)
+inline void Logger::set_buffer_size(size_t size)
 {
     if (size == 0) {
         size = 1;
@@ -159,7 +159,7 @@ void Logger::set_buffer_size(size_t size)
  *
  * @return size_t Number of log entries that can be stored
  */
-size_t Logger::get_buffer_size()
+inline size_t Logger::get_buffer_size()
 {
     std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     return instance().buffer_.size();
@@ -173,7 +173,7 @@ size_t Logger::get_buffer_size()
  *
  * @param sink Callback function to receive log entries
  */
-void Logger::set_custom_sink(CustomSink sink)
+inline void Logger::set_custom_sink(CustomSink sink)
 {
     std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = std::move(sink);
@@ -182,7 +182,7 @@ void Logger::set_custom_sink(CustomSink sink)
 /**
  * @brief Clear the custom output sink.
  */
-void Logger::clear_custom_sink()
+inline void Logger::clear_custom_sink()
 {
     std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = nullptr;
@@ -197,7 +197,7 @@ void Logger::clear_custom_sink()
  * @param level Severity level of the message
  * @param message Message to log
  */
-void Logger::log(LogLevel level, const std::string& message)
+inline void Logger::log(LogLevel level, const std::string& message)
 {
     if (level < instance().min_level_.load(std::memory_order_relaxed)) {
         return;
@@ -236,7 +236,7 @@ void Logger::log(LogLevel level, const std::string& message)
  * @param filepath Path to output file (empty for platform-specific default)
  * @return std::string Actual path where log was written, or empty on failure
  */
-std::string Logger::dump_to_file(const std::string& filepath)
+inline std::string Logger::dump_to_file(const std::string& filepath)
 {
     std::filesystem::path actual_path;
 
@@ -290,7 +290,7 @@ std::string Logger::dump_to_file(const std::string& filepath)
  *
  * @param enable True to enable crash handling
  */
-void Logger::enable_crash_handler(bool enable)
+inline void Logger::enable_crash_handler(bool enable)
 {
     instance().crash_handler_enabled_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -305,7 +305,7 @@ void Logger::enable_crash_handler(bool enable)
  *
  * @param enable True to enable debug console output
  */
-void Logger::enable_console_debug(bool enable)
+inline void Logger::enable_console_debug(bool enable)
 {
     instance().console_debug_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -323,7 +323,7 @@ void Logger::enable_console_debug(bool enable)
  *
  * @param enable True to enable info console output
  */
-void Logger::enable_console_info(bool enable)
+inline void Logger::enable_console_info(bool enable)
 {
     instance().console_info_.store(enable, std::memory_order_relaxed);
     if (enable) {
@@ -342,7 +342,7 @@ void Logger::enable_console_info(bool enable)
  *
  * @param enable True to enable warning console output
  */
-void Logger::enable_console_warning(bool enable)
+inline void Logger::enable_console_warning(bool enable)
 {
     instance().console_warning_.store(enable, std::memory_order_relaxed);
     if (!enable) {
@@ -357,7 +357,7 @@ void Logger::enable_console_warning(bool enable)
  *
  * @return bool True if debug console output is enabled
  */
-bool Logger::is_console_debug_enabled()
+inline bool Logger::is_console_debug_enabled()
 {
     return instance().console_debug_.load(std::memory_order_relaxed);
 }
@@ -367,7 +367,7 @@ bool Logger::is_console_debug_enabled()
  *
  * @return bool True if info console output is enabled
  */
-bool Logger::is_console_info_enabled()
+inline bool Logger::is_console_info_enabled()
 {
     return instance().console_info_.load(std::memory_order_relaxed);
 }
@@ -377,7 +377,7 @@ bool Logger::is_console_info_enabled()
  *
  * @return bool True if warning console output is enabled
  */
-bool Logger::is_console_warning_enabled()
+inline bool Logger::is_console_warning_enabled()
 {
     return instance().console_warning_.load(std::memory_order_relaxed);
 }
@@ -390,7 +390,7 @@ bool Logger::is_console_warning_enabled()
  *
  * @param log_path Path to the dumped log file
  */
-void Logger::output_crash_report(const std::string& log_path)
+inline void Logger::output_crash_report(const std::string& log_path)
 {
     if (!log_path.empty()) {
         std::cerr << red("HUIRA UNCAUGHT EXCEPTION") << "\n";
@@ -417,7 +417,7 @@ void Logger::output_crash_report(const std::string& log_path)
  *
  * @param signal Signal number that triggered the handler
  */
-void Logger::handle_crash(int signal)
+inline void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -465,7 +465,7 @@ void Logger::handle_crash(int signal)
  * @param exception_info Windows exception information structure
  * @return LONG EXCEPTION_CONTINUE_SEARCH to continue exception handling
  */
-LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info)
+inline LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -491,7 +491,7 @@ LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info
  * dumps the log, outputs a crash report, and calls std::abort(). Ensures only
  * one crash report is generated per process.
  */
-[[noreturn]] void Logger::handle_terminate()
+[[noreturn]] inline void Logger::handle_terminate()
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
@@ -535,7 +535,7 @@ LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info
  * Uses compiler pragmas to suppress warnings about potentially-throwing functions
  * in extern C contexts, as the handlers are designed to catch all exceptions internally.
  */
-void Logger::install_crash_handlers()
+inline void Logger::install_crash_handlers()
 {
     // Suppress C5039: passing potentially-throwing function to extern C function
     // Our handlers are carefully designed to catch all exceptions internally
diff --git a/include/huira_impl/util/paths.ipp b/include/huira_impl/util/paths.ipp
index 799e557..aecc5d2 100644
--- a/include/huira_impl/util/paths.ipp
+++ b/include/huira_impl/util/paths.ipp
@@ -11,30 +11,30 @@ namespace fs = std::filesystem;
 
 namespace huira {
 
-Paths& Paths::instance()
+inline Paths& Paths::instance()
 {
     static Paths instance;
     return instance;
 }
 
-fs::path Paths::executable_path()
+inline fs::path Paths::executable_path()
 {
     return get_executable_path();
 }
 
-fs::path Paths::executable_dir()
+inline fs::path Paths::executable_dir()
 {
     return std::filesystem::path(executable_path()).parent_path().string();
 }
 
-fs::path Paths::relative_to_executable(const fs::path& relativePath)
+inline fs::path Paths::relative_to_executable(const fs::path& relativePath)
 {
     namespace fs = std::filesystem;
     auto resolved = fs::path(executable_dir()) / relativePath;
     return fs::weakly_canonical(resolved).string();
 }
 
-fs::path Paths::data_dir() const
+inline fs::path Paths::data_dir() const
 {
     if (data_dir_override_) {
         return *data_dir_override_;
@@ -42,7 +42,7 @@ fs::path Paths::data_dir() const
     return HUIRA_DEFAULT_DATA_DIR;
 }
 
-void Paths::set_data_dir(const fs::path& path)
+inline void Paths::set_data_dir(const fs::path& path)
 {
     namespace fs = std::filesystem;
 
@@ -55,7 +55,7 @@ void Paths::set_data_dir(const fs::path& path)
     }
 }
 
-void Paths::reset_data_dir()
+inline void Paths::reset_data_dir()
 {
     data_dir_override_.reset();
 }
-- 
2.43.0


From 485d364f120272a86351d36517ff2d2329a68bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:55 +0000
Subject: [PATCH 141/141] fix: unit_concepts.hpp can be included more than once

---
 include/huira/concepts/unit_concepts.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/huira/concepts/unit_concepts.hpp b/include/huira/concepts/unit_concepts.hpp
index 417ca7a..700391b 100644
--- a/include/huira/concepts/unit_concepts.hpp
+++ b/include/huira/concepts/unit_concepts.hpp
@@ -1,3 +1,5 @@
+#pragma once
+
 #include <concepts>
 #include <ratio>
 #include <type_traits>
-- 
2.43.0

