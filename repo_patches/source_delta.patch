From 869b5fbd7826e3853bd11e7a189a8472f0875d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 01/19] fix: readers do not read past the end of a truncated
 date string

When the string ended after a field, strptime_* stepped over its terminator
and went on parsing whatever memory follows it. A truncated string now throws
std::invalid_argument, as documented.
---
 src/datetime_read.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ab0b47b..2b68831 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -45,7 +45,7 @@ template<typename T>
 
   for (int i = 0; i < 3; ++i) {
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    if (errno == ERANGE || start == end || (i < 2 && *end == '\0')) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
@@ -81,7 +81,7 @@ template<typename T>
 
   for (int i = 0; i < 2; ++i) {
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    if (errno == ERANGE || start == end || (i < 1 && *end == '\0')) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str)
@@ -117,7 +117,7 @@ template<typename T>
 
   for (int i = 0; i < 5; ++i) {
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \""+std::string(str)+
@@ -163,14 +163,18 @@ template<typename T>
   double secs;
 
   ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end || *end == '\0') {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
   start = end+1;
 
-  if ( !std::isalpha(*start) ) ++start;
+  if ( *start != '\0' && !std::isalpha(*start) ) ++start;
+  if ( std::strlen(start) < 4 ) {
+    throw std::invalid_argument
+      ("Invalid date format: \""+std::string(str)+"\" (argument #2).");
+  }
   std::memcpy(month_str, start, 3);
   month_str[0] = std::toupper(month_str[0]);
   month_str[1] = std::tolower(month_str[1]);
@@ -180,7 +184,7 @@ template<typename T>
 
   for (int i = 2; i < 5; ++i) {
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
-    if (errno == ERANGE || start == end) {
+    if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
@@ -226,7 +230,7 @@ template<typename T>
 
   for (int i = 0; i < 4; ++i) {
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
-- 
2.43.0


From d7a036b20ae04305b68fd3624126a5f06b7bdfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 02/19] fix: readers do not reject a valid date because of a
 stale errno

strptime_* tested errno for ERANGE without clearing it first, so a range error
of an unrelated earlier call made them throw on a valid string.
---
 src/datetime_read.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 2b68831..feea9b8 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -14,6 +14,7 @@
 #ifndef __NGPT_DT_READERS__
 #define __NGPT_DT_READERS__
 
+#include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
@@ -44,6 +45,7 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end || (i < 2 && *end == '\0')) {
       errno = 0;
@@ -80,6 +82,7 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end || (i < 1 && *end == '\0')) {
       errno = 0;
@@ -116,6 +119,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
@@ -125,6 +129,7 @@ template<typename T>
     }
     start = end+1;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
@@ -162,6 +167,7 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
+  errno = 0;
   ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
   if (errno == ERANGE || start == end || *end == '\0') {
     errno = 0;
@@ -183,6 +189,7 @@ template<typename T>
   start += 4;
 
   for (int i = 2; i < 5; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
     if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
@@ -193,6 +200,7 @@ template<typename T>
     start = end+1;
   }
 
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
@@ -229,6 +237,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
@@ -238,6 +247,7 @@ template<typename T>
     }
     start = end+1;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From c1235fd4f668e2d0e142adbdfeaff1a227cd624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:08 +0000
Subject: [PATCH 03/19] fix: readers reject integer fields that do not fit an
 int

strptime_* truncated such a field silently (e.g. year 4294969311 was resolved
as 2015), and the absolute value of LONG_MIN is undefined. They now throw
std::invalid_argument.
---
 src/datetime_read.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index feea9b8..a795c7c 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -17,6 +17,7 @@
 #include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
+#include <limits>
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
@@ -27,6 +28,21 @@
 
 namespace ngpt {
 
+/// Resolve an integer field of a date string, as its absolute value. Works as
+/// std::strtol, but errno is (also) set to ERANGE if the field is not
+/// representable as int.
+inline int
+__read_field__(const char* str, char** end) noexcept
+{
+  const long field = std::strtol(str, end, 10);
+  if (   field >  std::numeric_limits<int>::max()
+      || field < -std::numeric_limits<int>::max() ) {
+    errno = ERANGE;
+    return 0;
+  }
+  return static_cast<int>(std::abs(field));
+}
+
 /// @brief Read from YYYY-MM-DD
 ///
 /// Read and return a date from a c-string of type: YYYY-MM-DD, where the 
@@ -46,7 +62,7 @@ template<typename T>
 
   for (int i = 0; i < 3; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+    ints[i] = __read_field__(start, &end);
     if (errno == ERANGE || start == end || (i < 2 && *end == '\0')) {
       errno = 0;
       throw std::invalid_argument
@@ -83,7 +99,7 @@ template<typename T>
 
   for (int i = 0; i < 2; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+    ints[i] = __read_field__(start, &end);
     if (errno == ERANGE || start == end || (i < 1 && *end == '\0')) {
       errno = 0;
       throw std::invalid_argument
@@ -120,7 +136,7 @@ template<typename T>
 
   for (int i = 0; i < 5; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+    ints[i] = __read_field__(start, &end);
     if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
       throw std::invalid_argument
@@ -168,7 +184,7 @@ template<typename T>
   double secs;
 
   errno = 0;
-  ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+  ints[0] = __read_field__(start, &end);
   if (errno == ERANGE || start == end || *end == '\0') {
     errno = 0;
     throw std::invalid_argument
@@ -190,7 +206,7 @@ template<typename T>
 
   for (int i = 2; i < 5; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
+    ints[i] = __read_field__(start, &end);
     if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
       throw std::invalid_argument
@@ -238,7 +254,7 @@ template<typename T>
 
   for (int i = 0; i < 4; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
+    ints[i] = __read_field__(start, &end);
     if (errno == ERANGE || start == end || *end == '\0') {
       errno = 0;
       throw std::invalid_argument
-- 
2.43.0


From f74f785c1e2cf29345d04f3a56038a34a6431561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:08 +0000
Subject: [PATCH 04/19] fix: readers reject a missing, non-finite or
 out-of-range seconds field

strptime_*_hms resolved a string without seconds as 0 seconds, and converting
'nan', 'inf' or e.g. '1e300' to an integral number of seconds is undefined.
They now throw std::invalid_argument, as documented.
---
 src/datetime_read.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index a795c7c..9cf1ec6 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -147,7 +147,8 @@ template<typename T>
   }
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -218,7 +219,8 @@ template<typename T>
 
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -265,7 +267,8 @@ template<typename T>
   }
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end
+      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From cc16873beb71d5d4571cc0964cd713d837999a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 05/19] fix: datetime constructors let the invalid date
 exception through

The constructors from a calendar date were declared noexcept, though cal2mjd
(documented to) throw(s) on an invalid month or day of month: an impossible
date, e.g. one read from a string, ended the process via std::terminate
instead of raising the exception.
---
 src/dtcalendar.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 39bf625..0c1407f 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -264,7 +264,7 @@ public:
     
   /// Constructor from year, month, day of month and sec type.
   explicit constexpr
-  datetime(year y, month m, day_of_month d, S s) noexcept
+  datetime(year y, month m, day_of_month d, S s)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{s}
   {
@@ -285,7 +285,7 @@ public:
                 std::is_same<S, decltype(static_cast<S>(T{}))>::value, bool>
                >
   explicit
-  datetime(year y, month m, day_of_month d, T t) noexcept
+  datetime(year y, month m, day_of_month d, T t)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{S(t)}
   {
@@ -316,7 +316,6 @@ public:
                >
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, T sec)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, S(sec)}
   {
@@ -341,7 +340,6 @@ public:
   /// Constructor from year, month, day of month and fractional seconds.
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, double fsecs)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, fsecs}
   {
@@ -361,7 +359,7 @@ public:
   /// second type S.
   explicit
   datetime(year y, month m, day_of_month d, hours hr=hours(),
-           minutes mn=minutes(), S sec=S()) noexcept
+           minutes mn=minutes(), S sec=S())
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, sec}
   {
-- 
2.43.0


From 46ea9e64a894bdf23c239dc6ce5f2044485275e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 06/19] fix: day of year conversions hold outside 1901-2099

ydoy2mjd and modified_julian_day::to_ydoy counted every fourth year as a leap
one, so they disagreed with the calendar date conversions from March 2100 on
and before 1901 (e.g. day 1 of 2101 was one day late, and MJD 15384 was
resolved as day 0 of 1901).
---
 src/dtfund.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 1e84911..34e7ef3 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -164,19 +164,7 @@ ngpt::day_of_month::is_valid(ngpt::year y, ngpt::month m) const noexcept
 ngpt::ydoy_date
 ngpt::modified_julian_day::to_ydoy() const noexcept
 {
-  long days_fr_jan1_1901 { m_mjd - ngpt::jan11901 };
-  long num_four_yrs      { days_fr_jan1_1901/1461L };
-  long years_so_far      { 1901L + 4*num_four_yrs };
-  long days_left         { days_fr_jan1_1901 - 1461*num_four_yrs };
-  long delta_yrs         { days_left/365 - days_left/1460 };
-  
-  ydoy_date ydoy;
-  ydoy.__doy = day_of_year{static_cast<day_of_year::underlying_type>
-              (days_left-365*delta_yrs+1)};
-  ydoy.__year= year{static_cast<year::underlying_type>
-              (years_so_far + delta_yrs)};
-
-  return ydoy;
+  return this->to_ymd().to_ydoy();
 }
 
 ///
@@ -214,11 +202,10 @@ ngpt::modified_julian_day::to_ymd() const noexcept
 ngpt::modified_julian_day
 ngpt::ydoy2mjd(ngpt::year yr, ngpt::day_of_year doy) noexcept
 {
-    long iyr {static_cast<long>(yr.as_underlying_type())};
     long idy {static_cast<long>(doy.as_underlying_type())};
 
-    return modified_julian_day {((iyr-1901)/4)*1461 + ((iyr-1901)%4)*365 +
-        idy - 1 + ngpt::jan11901};
+    return modified_julian_day {
+        ngpt::cal2mjd(yr.as_underlying_type(), 1, 1) + idy - 1};
 }
 
 /// 
-- 
2.43.0


From 3bdad26741a33f516d2a4f04836c03aeee6efc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 07/19] fix: ydoy_date::to_ymd does not abort late in the year
 (debug build)

The debug assertion excluded December (guess is 11 from day of year 344 on).
---
 src/dtfund.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 34e7ef3..5dee749 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -231,7 +231,7 @@ ngpt::ydoy_date::to_ymd() const noexcept
   int guess = __doy.as_underlying_type() * 0.032;
   int leap = __year.is_leap();
 #ifdef DEBUG
-  assert( guess >= 0 && guess < 11 );
+  assert( guess >= 0 && guess < 12 );
 #endif
   int more = (( __doy.as_underlying_type() - month_day[leap][guess+1] ) > 0);
   yd.__month = month{guess + more + 1};
-- 
2.43.0


From 12aaa548d718ce69f747b7f6f3956f4a3bbdb2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 08/19] fix: datetime::stringify prints the seconds of the
 instant

It added the fractional part (as an integral count) in place of the integral
seconds: 12:09:30 was printed as 12:9:0.000000000 and 12:09:31.25 (with
milliseconds) as 12:9:250.250000000.
---
 src/dtcalendar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 0c1407f..7682744 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -741,7 +741,7 @@ public:
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
     out << std::fixed << std::setprecision(9) 
-        << (fsec + static_cast<double>(st.as_underlying_type()));
+        << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
     return std::string {
                  std::to_string( ymd.__year.as_underlying_type() )
-- 
2.43.0


From c7f2f47f44c883388376882f89b6bc15ecc1b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 09/19] fix: strftime_ymd_hmfs writes microseconds

With five decimal digits the last digit of a microsecond datetime was lost,
and seconds within 5 microseconds of a minute were printed as 60.00000.
---
 src/datetime_write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 484b79e..f9c0a63 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -66,7 +66,7 @@ template<typename T>
        + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
        + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
        + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
-       + _d2s_(secs, 5);
+       + _d2s_(secs, 6);
 }
 template<typename T>
   std::string
-- 
2.43.0


From a31e7ddc09bbe27f452505c8c8ea0cf5b23914aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 10/19] fix: fractional seconds keep their last
 milli/microsecond

A decimal like 1.001 is not exactly representable, and 1.001 * 1000 is
1000.9999999999999: the conversion truncated it to 1000 milliseconds, so about
one in 160 millisecond values was read one too low. Compensate the rounding of
the product (two units in the last place) before truncating.
---
 src/dtfund.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 8c58f2f..65cebbb 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -1361,7 +1361,8 @@ public:
   /// the fs input argument).
   explicit constexpr
   milliseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>()
+             * (1e0+2e0*std::numeric_limits<double>::epsilon()))
              + (m.as_underlying_type()*60L + h.as_underlying_type()*3600L)
              * sec_factor<underlying_type>()}
   {
@@ -1601,7 +1602,8 @@ public:
   ///       up to 10e-6.
   explicit constexpr
   microseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>()
+             * (1e0+2e0*std::numeric_limits<double>::epsilon()))
             + (m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
   {};
-- 
2.43.0


From 58f5357ed38271e48f226f774308818a833d37aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 11/19] fix: datetime_interval division is exact

Dividing via double could lose a unit: 4 days / 3 was 1 day and 28799 seconds
instead of 28800.
---
 src/dtcalendar.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 7682744..b228bad 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -166,18 +166,14 @@ public:
   operator!=(const datetime_interval& d) const noexcept
   { return !(this->operator==(d)); }
 
-  /// @todo wtf is this?? it needs checking
+  /// Divide by an integer; the result is truncated to the resolution of S.
   datetime_interval
   operator/(int div) const noexcept
   {
-    double d = static_cast<double>(m_days.as_underlying_type());
-    double i, f;
-    f = std::modf(d/div, &i);
-    auto new_mjd = static_cast<modified_julian_day::underlying_type>(i);
-
-    d = static_cast<double>(m_secs.as_underlying_type());
-    d = d/div + f*S::max_in_day;
-    auto new_sec = static_cast<typename S::underlying_type>(d);
+    const auto days = m_days.as_underlying_type();
+    auto new_mjd = days / div;
+    auto new_sec = ((days%div)*S::max_in_day + m_secs.as_underlying_type())
+                 / div;
 
     return datetime_interval{modified_julian_day{new_mjd}, S{new_sec}};
   }
-- 
2.43.0


From 474fc7fb8b486d038c55302606fc269eeb331031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 12/19] fix: cast_to between second types does not overflow
 midway

E.g. microseconds to milliseconds overflowed above 292 years, and any cast of
more than 106 days of microseconds to microseconds, though the result fits.
---
 src/dtfund.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 65cebbb..686241c 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2095,13 +2095,15 @@ template<typename Ssrc,
   inline Strg
   cast_to(Ssrc s) noexcept
 {
-  // this is tricky! We must first compute the numerator and then the fraction.
-  // why? check this out
-  // seconds _s1 = cast_to<milliseconds, seconds>(milliseconds{2000L});
-  // this is: (1/1000)*2000 which is 0 because 1/1000 is 0, but
-  // (2000*1)/1000 = 2 which is correct
-  auto numerator { s.__member_ref__() * Strg::template sec_factor<long>() };
-  return Strg {numerator / Ssrc::template sec_factor<long>()};
+  // Scale by the ratio of the two factors (either way, it is an integer). Do
+  // not multiply first and then divide: the intermediate product may overflow
+  // although the result does not.
+  constexpr long src { Ssrc::template sec_factor<long>() };
+  constexpr long trg { Strg::template sec_factor<long>() };
+  if constexpr (trg >= src)
+    return Strg {s.__member_ref__() * (trg/src)};
+  else
+    return Strg {s.__member_ref__() / (src/trg)};
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From 668bc1f3f2fcee0da36cba290fd224f1e570dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 13/19] fix: datetime from GPS week normalizes a negative
 seconds of week

All other constructors do; this one kept a negative time of day, e.g. for the
week and seconds of week of an instant before the GPS epoch, as returned by
as_gps_wsow.
---
 src/dtcalendar.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index b228bad..aefa64a 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -397,11 +397,10 @@ public:
   explicit
   datetime(gps_week w, S sow) noexcept
     : m_mjd{w.as_underlying_type()*7
-           +sow.as_underlying_type()/S::max_in_day
            +jan61980},
     m_sec{sow}
   {
-    m_sec.remove_days();
+    this->normalize();
   }
 
   /// Get the Modified Julian Day (const).
-- 
2.43.0


From 434913bdb9a9e4b77def94ebb823a9738d8b1e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 14/19] fix: dat does not overflow for years after 178956969

---
 src/dat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dat.cpp b/src/dat.cpp
index 5fd60f7..8301899 100644
--- a/src/dat.cpp
+++ b/src/dat.cpp
@@ -74,7 +74,7 @@ ngpt::dat(ngpt::year iy, ngpt::month im) noexcept
   constexpr int NDAT { (int) (sizeof changes / sizeof changes[0]) };
 
   // Combine year and month to form a date-ordered integer...
-  int m = 12*iy.as_underlying_type() + im.as_underlying_type();
+  long m = 12L*iy.as_underlying_type() + im.as_underlying_type();
   // ...and use it to find the preceding table entry.
   int idx = NDAT-1;
   for (; idx >= 0; idx--) {
-- 
2.43.0


From 91e3a6827576b74a9a40f16806badcfb05ba3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 15/19] fix: stop of the date and time readers is the last
 character interpreted

---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 9cf1ec6..468f7fa 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -153,7 +153,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     month{ints[1]},
     day_of_month{ints[2]},
@@ -226,7 +226,7 @@ template<typename T>
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
   }
 
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
 
   return datetime<T> {year{ints[0]},
     mnt,
@@ -273,7 +273,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
     hours{ints[2]},
-- 
2.43.0


From ff6a9a3907b656933d5bb7ae00185a0ed15d43be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 16/19] fix: write dates with plain digits and a decimal point
 in every locale

---
 src/datetime_write.hpp | 3 +++
 src/dtcalendar.hpp     | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index f9c0a63..3aeb393 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -15,6 +15,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -28,6 +29,7 @@ inline std::string
 _d2s_(double d, int n=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic());
   stream << std::fixed << std::setprecision(n) << d;
   return stream.str();
 }
@@ -37,6 +39,7 @@ inline std::string
 _i2s_(int i, int w=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic());
   stream << std::setfill('0') << std::setw(w) << i;
   return stream.str();
 }
diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index aefa64a..b2a01af 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -735,6 +735,7 @@ public:
     S st { std::get<3>(hms) };
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
+    out.imbue(std::locale::classic());
     out << std::fixed << std::setprecision(9) 
         << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
-- 
2.43.0


From fdc327603a709fc5877674032fe7bf2eaccb10ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 17/19] fix: read date strings the same way in every locale

---
 src/datetime_read.hpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 468f7fa..ce0635d 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -16,11 +16,12 @@
 
 #include <cerrno>
 #include <cstdlib>
-#include <cctype>         // for std::isalpha
 #include <limits>
+#include <locale>         // for std::isalpha(char, locale)
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
+#include <locale.h>       // for newlocale
 
 #ifdef DEBUG
 #include <iostream>
@@ -28,13 +29,22 @@
 
 namespace ngpt {
 
+/// The "C" locale; numbers in date strings are always resolved in this one, no
+/// matter which locale the program has set.
+inline locale_t
+__c_locale__() noexcept
+{
+  static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", nullptr);
+  return c_locale;
+}
+
 /// Resolve an integer field of a date string, as its absolute value. Works as
 /// std::strtol, but errno is (also) set to ERANGE if the field is not
 /// representable as int.
 inline int
 __read_field__(const char* str, char** end) noexcept
 {
-  const long field = std::strtol(str, end, 10);
+  const long field = strtol_l(str, end, 10, __c_locale__());
   if (   field >  std::numeric_limits<int>::max()
       || field < -std::numeric_limits<int>::max() ) {
     errno = ERANGE;
@@ -146,7 +156,7 @@ template<typename T>
     start = end+1;
   }
   errno = 0;
-  secs = std::strtod(start, &end);
+  secs = strtod_l(start, &end, __c_locale__());
   if (errno == ERANGE || start == end
       || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
@@ -193,15 +203,15 @@ template<typename T>
   }
   start = end+1;
 
-  if ( *start != '\0' && !std::isalpha(*start) ) ++start;
+  if ( *start != '\0' && !std::isalpha(*start, std::locale::classic()) ) ++start;
   if ( std::strlen(start) < 4 ) {
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #2).");
   }
   std::memcpy(month_str, start, 3);
-  month_str[0] = std::toupper(month_str[0]);
-  month_str[1] = std::tolower(month_str[1]);
-  month_str[2] = std::tolower(month_str[2]);
+  month_str[0] = std::toupper(month_str[0], std::locale::classic());
+  month_str[1] = std::tolower(month_str[1], std::locale::classic());
+  month_str[2] = std::tolower(month_str[2], std::locale::classic());
   month mnt {month_str};
   start += 4;
 
@@ -218,7 +228,7 @@ template<typename T>
   }
 
   errno = 0;
-  secs = std::strtod(start, &end);
+  secs = strtod_l(start, &end, __c_locale__());
   if (errno == ERANGE || start == end
       || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
@@ -266,7 +276,7 @@ template<typename T>
     start = end+1;
   }
   errno = 0;
-  secs = std::strtod(start, &end);
+  secs = strtod_l(start, &end, __c_locale__());
   if (errno == ERANGE || start == end
       || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
-- 
2.43.0


From 6aff5e62233069b848f0747dc0206ff6179c4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:38 +0000
Subject: [PATCH 18/19] fix: resolve month names case-insensitively in every
 locale

---
 src/dtfund.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 5dee749..56725a6 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -13,6 +13,7 @@
 
 #include "dtfund.hpp"
 #include <cassert>
+#include <locale>
 
 /// Definition for static month array (short names).
 /// @see ngpt::month
@@ -87,7 +88,8 @@ __lower_strncmp__(const char *str1, const char *str2, std::size_t n=0)
 {
   if (!n) n = std::max(std::strlen(str1), std::strlen(str2));
   for (std::size_t i = 0; i < n; i++) 
-    if ( !(std::tolower(str1[i]) == std::tolower(str2[i])) ) 
+    if ( !(std::tolower(str1[i], std::locale::classic())
+           == std::tolower(str2[i], std::locale::classic())) )
       return 1;
   return 0;
 }
-- 
2.43.0


From 5cd5bed01a1df78e37b4384b2e2864934e944efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 19/19] fix: read seconds whose fraction is below the smallest
 double

---
 src/datetime_read.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ce0635d..15b6663 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -157,8 +157,7 @@ template<typename T>
   }
   errno = 0;
   secs = strtod_l(start, &end, __c_locale__());
-  if (errno == ERANGE || start == end
-      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
+  if (start == end || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -229,8 +228,7 @@ template<typename T>
 
   errno = 0;
   secs = strtod_l(start, &end, __c_locale__());
-  if (errno == ERANGE || start == end
-      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
+  if (start == end || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -277,8 +275,7 @@ template<typename T>
   }
   errno = 0;
   secs = strtod_l(start, &end, __c_locale__());
-  if (errno == ERANGE || start == end
-      || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
+  if (start == end || !(std::abs(secs) <= std::numeric_limits<int>::max())) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0

