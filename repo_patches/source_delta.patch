From 056cd45c621de2452a5ea555b7557bd6c76f6f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 01/21] fix: normalize skipped the last value of each series
 for some dimensions

The pairwise min/max scan decided where to start from the parity of the
whole dataset instead of the parity of a single series.
---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d883352..05d9821 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -227,7 +227,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
     data_t x, y, z;
 
     // start at 0 if even, 1 if odd
-    if ((i = (length % 2 != 0)))
+    if ((i = (this->itemLength % 2 != 0)))
     {
       if (data[ts * this->itemLength] < MIN)
       {
-- 
2.43.0


From 4e673202684f32a7c43ce274a60d7aa3496af333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 02/21] fix: release arrays with delete[]

---
 src/TimeSeries.cpp    | 2 +-
 src/TimeSeriesSet.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 707dda2..fafb16d 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -50,7 +50,7 @@ TimeSeries::~TimeSeries()
   // if object allocated the data, delete it
   if (this->isOwnerOfData)
   {
-    delete this->data;
+    delete[] this->data;
     this->data = nullptr;
   }
   delete[] keoghLower;
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 05d9821..c3cb623 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -304,7 +304,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
-  delete this->data;
+  delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
 }
-- 
2.43.0


From 57cf35c45f6fc017e21fa15c89fdc6af209f8b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 03/21] fix: lines from readline must be released with free

---
 cli/OnexCLI.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index f46b7dc..9d2aa8d 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -536,7 +537,7 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
@@ -573,7 +574,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 1768445b58ba885650a8471c0668dab2d7e0c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 04/21] fix: assigning a time series kept the old envelopes and
 mishandled owned data

The Keogh envelope cache stayed valid after copy and move assignment,
self-assignment read freed data and move assignment leaked owned data.
---
 src/TimeSeries.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index fafb16d..481a49d 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -14,6 +14,9 @@ namespace onex {
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     delete[] this->data;
   }
@@ -30,11 +33,18 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   else {
     this->data = other.data;
   }
+  keoghCacheValid = false;
   return *this;
 }
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  if (isOwnerOfData) {
+    delete[] this->data;
+  }
   data = other.data;
   index = other.index;
   start = other.start;
@@ -42,6 +52,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   length = other.length;
   isOwnerOfData = other.isOwnerOfData;
   other.data = nullptr;
+  keoghCacheValid = false;
   return *this;
 }
 
-- 
2.43.0


From 345478c2a9e4e3870b08ca6fee041ae4178cb43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 05/21] fix: division by zero when grouping fewer than five
 subsequences

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 08949c2..531b9a6 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -64,7 +64,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 5128ca8a0aeb650b0a35bc6014a9d2a2dfe9add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 06/21] fix: uninitialised group index when no representative
 is at a finite distance

---
 src/LocalLengthGroupSpace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 531b9a6..ed38849 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -73,7 +73,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = -1;
 
       for (unsigned int i = 0; i < groups.size(); i++)
       {
@@ -85,7 +85,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
         }
       }
 
-      if (bestSoFar > threshold / 2 || this->groups.size() == 0)
+      if (bestSoFar > threshold / 2 || bestSoFarIndex < 0)
       {
         bestSoFarIndex = this->groups.size();
         int newGroupIndex = this->groups.size();
-- 
2.43.0


From 1e1c6a06c687d0b86c5ff7ec8c93d2d1db542beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 07/21] fix: invalid access when a query has no group of a
 compatible length

---
 src/GlobalGroupSpace.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5ca33e6..a850a48 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <boost/algorithm/string.hpp>
 #include "TimeSeries.hpp"
+#include "Exception.hpp"
 #include "TimeSeriesSet.hpp"
 #include "distance/Distance.hpp"
 #include "Group.hpp"
@@ -76,6 +77,9 @@ candidate_time_series_t GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       bestSoFarDist = candidate.second;
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw OnexException("No match found for the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -120,7 +124,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -129,7 +135,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
-- 
2.43.0


From 6fe84575d7534ce484e00814217fb3bd4d3185e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 08/21] fix: groups survived loading, normalising or
 aggregating their dataset

They referred to released or outdated values; later queries were answered
from them.
---
 src/GroupableTimeSeriesSet.cpp | 26 ++++++++++++++++++++++++++
 src/GroupableTimeSeriesSet.hpp |  9 +++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 96df068..8b9679e 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -18,6 +18,32 @@ GroupableTimeSeriesSet::~GroupableTimeSeriesSet()
   this->reset();
 }
 
+void GroupableTimeSeriesSet::loadData(const string& filePath, int maxNumRow,
+                                      int startCol, const string& separators)
+{
+  reset();
+  TimeSeriesSet::loadData(filePath, maxNumRow, startCol, separators);
+}
+
+void GroupableTimeSeriesSet::clearData()
+{
+  reset();
+  TimeSeriesSet::clearData();
+}
+
+std::pair<data_t, data_t> GroupableTimeSeriesSet::normalize()
+{
+  std::pair<data_t, data_t> minAndMax = TimeSeriesSet::normalize();
+  reset();
+  return minAndMax;
+}
+
+void GroupableTimeSeriesSet::PAA(int n)
+{
+  TimeSeriesSet::PAA(n);
+  reset();
+}
+
 int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, data_t threshold)
 {
   if (!this->isLoaded())
diff --git a/src/GroupableTimeSeriesSet.hpp b/src/GroupableTimeSeriesSet.hpp
index e7d48c8..e0754f0 100644
--- a/src/GroupableTimeSeriesSet.hpp
+++ b/src/GroupableTimeSeriesSet.hpp
@@ -24,6 +24,15 @@ public:
    */
   ~GroupableTimeSeriesSet();
 
+  /**
+   *  Operations that replace the values of the dataset. Existing groups were built from
+   *  the old values, so they are cleared.
+   */
+  void loadData(const string& filePath, int maxNumRow, int startCol, const string& separator);
+  void clearData();
+  std::pair<data_t, data_t> normalize();
+  void PAA(int n);
+
   /**
    *  @brief groups the datset into similarity groups
    *
-- 
2.43.0


From 91d77254206ed4a233f6f5f906789eea3ebff2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 09/21] fix: a dataset counted as grouped after its grouping
 had failed

---
 src/GroupableTimeSeriesSet.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 8b9679e..d403454 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -55,7 +55,14 @@ int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, da
   reset();
 
   this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-  int cntGroups = this->groupsAllLengthSet->group(distance_name, threshold);
+  int cntGroups = 0;
+  try {
+    cntGroups = this->groupsAllLengthSet->group(distance_name, threshold);
+  } catch (...)
+  {
+    reset();
+    throw;
+  }
   this->threshold = threshold;
   return cntGroups;
 }
-- 
2.43.0


From 164e617cb6f72e43f8c61a298603183a9437f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 10/21] fix: a start column outside the table wrote outside the
 dataset

---
 src/TimeSeriesSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index c3cb623..cbd311b 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -109,6 +109,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
       {
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
+        if (startCol < 0 || startCol >= length)
+        {
+          f.close();
+          this->clearData();
+          throw OnexException("Starting column is out of range");
+        }
         this->data = new data_t[maxNumRow * length];
         memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
 
-- 
2.43.0


From 7348202d10274ef62d72741d2cf89433846d8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 11/21] fix: an empty file was loaded as a dataset of negative
 item length

---
 src/TimeSeriesSet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index cbd311b..6227f4c 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -164,6 +164,13 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("Error while reading file");
   }
 
+  if (this->itemCount == 0)
+  {
+    f.close();
+    this->clearData();
+    throw OnexException("File contains no data");
+  }
+
   this->itemLength = length - startCol;
   this->filePath = filePath;
 
-- 
2.43.0


From e34c18c3620b7596b47131861bb5f0dd7439bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 12/21] fix: dataset was cleared beyond its end in single
 precision

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 6227f4c..8de3fbd 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -116,7 +116,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
           throw OnexException("Starting column is out of range");
         }
         this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
+        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
-- 
2.43.0


From 86caa46795a1d9351a2c3f609ff6908cda045cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 13/21] fix: newly loaded data was still reported as normalized

---
 src/TimeSeriesSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 8de3fbd..6205a28 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -172,6 +172,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
   }
 
   this->itemLength = length - startCol;
+  this->normalized = false;
   this->filePath = filePath;
 
   f.close();
-- 
2.43.0


From 1016ccaa8f0248932ecdab86affb790470b28673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 14/21] fix: saved datasets lost all digits after the sixth

---
 src/TimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 6205a28..d16247e 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -4,6 +4,7 @@
 #include <string>
 #include <fstream>
 #include <iostream>
+#include <iomanip>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -186,6 +187,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw OnexException(string("Cannot open ") + filePath);
   }
+  f << std::setprecision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     for (int j = 0; j < itemLength; j++) {
       f << data[i * itemLength + j] << separator;
-- 
2.43.0


From 003e41544227f7002921bea660524ca92f8f72b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 15/21] fix: saved groups were written with too few digits to
 be restored exactly

---
 src/GroupableTimeSeriesSet.cpp | 5 ++++-
 src/TimeSeries.cpp             | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index d403454..7bc6e68 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -5,6 +5,8 @@
 #include <iostream>
 
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 using std::ofstream;
 using std::ifstream;
@@ -88,7 +90,8 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
   if (fout)
   {
     // Version of the file format, the threshold and the required dataset dimensions
-    fout << GROUP_FILE_VERSION << " " 
+    fout << std::setprecision(std::numeric_limits<data_t>::max_digits10)
+         << GROUP_FILE_VERSION << " " 
          << this->threshold << " "
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 481a49d..a14e5a0 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -144,7 +144,7 @@ string TimeSeries::getIdentifierString() const
 void TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
 }
-- 
2.43.0


From edda08be98d3e0f34cc8530065e38b43116a87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 16/21] fix: match with a start but no end read an argument
 that was not given

---
 cli/OnexCLI.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index 9d2aa8d..004a38f 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -370,7 +370,8 @@ MAKE_COMMAND(PAA,
 
 MAKE_COMMAND(Match,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
+    if (tooFewArgs(args, 4) || tooManyArgs(args, 6)
+        || (args.size() > 4 && tooFewArgs(args, 6)))
     {
       return false;
     }
-- 
2.43.0


From a639d17181281c883992d35d1c874845b65b47ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 17/21] fix: warped distance accepted paths outside the band
 along the borders

---
 src/distance/Distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 088f842..0e92d67 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -75,13 +75,13 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
   cost[0][0] = _euc(a[0], b[0]);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = cost[i-1][0] + _euc(a[i], b[0]);
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = cost[0][j-1] + _euc(a[0], b[j]);
   }
-- 
2.43.0


From a2a34a70911ea0cccfa76b1dd9fd9bb88235277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 18/21] fix: warped distance used a cell outside the band when
 its neighbours overflowed

---
 src/distance/Distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 0e92d67..a8de88e 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -100,7 +100,7 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
       data_t ij1  = (i - r <= j-1 && j-1 <= i + r) ? cost[i][j-1] : INF;
       data_t i1j1 = cost[i-1][j-1];
       data_t i1j  = (j - r <= i-1 && i-1 <= j + r) ? cost[i-1][j] : INF;
-      data_t minPrev = cost[i-1][j];
+      data_t minPrev = i1j;
       if (i1j1 < ij1 && i1j1 < i1j)
       {
         minPrev = cost[i-1][j-1];
-- 
2.43.0


From 01c1bd93babe43e4f612a458a2f9f85b8452f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 19/21] fix: a cleared dataset was still reported as normalized

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d16247e..dffd890 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -173,7 +173,6 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
   }
 
   this->itemLength = length - startCol;
-  this->normalized = false;
   this->filePath = filePath;
 
   f.close();
@@ -203,6 +202,7 @@ void TimeSeriesSet::clearData()
   this->data = nullptr;
   this->itemCount = 0;
   this->itemLength = 0;
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From 48732456de7e0556ae06b889e9c17e4701f8288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 20/21] fix: malformed group files were accepted or led to
 invalid accesses

Group files are now refused unless they hold a complete grouping of the
dataset; a refused file leaves the dataset with its previous groups.
---
 src/GlobalGroupSpace.cpp       |  6 +++++-
 src/Group.cpp                  | 13 ++++++++++++-
 src/Group.hpp                  |  2 +-
 src/GroupableTimeSeriesSet.cpp | 19 +++++++++++++++++--
 src/LocalLengthGroupSpace.cpp  | 14 ++++++++++++--
 5 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index a850a48..036a415 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -106,13 +106,17 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
   int numberOfGroups = 0;
   string distance;
   fin >> lenFrom >> lenTo >> distance;
+  if (!fin || lenFrom != 2 || lenTo != dataset.getItemLength() + 1)
+  {
+    throw OnexException("Group file contains an invalid range of lengths");
+  }
   boost::trim_right(distance);
   this->loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getItemLength() + 1, nullptr);  
   for (unsigned int i = lenFrom; i < lenTo; i++) {
     LocalLengthGroupSpace* gel = new LocalLengthGroupSpace(dataset, i);
-    numberOfGroups += gel->loadGroups(fin);
     this->localLengthGroupSpace[i] = gel;
+    numberOfGroups += gel->loadGroups(fin);
   }
   return numberOfGroups;
 }
diff --git a/src/Group.cpp b/src/Group.cpp
index 57df2fe..105f700 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 
 #include "TimeSeries.hpp"
+#include "Exception.hpp"
 #include "distance/Distance.hpp"
 
 using std::vector;
@@ -102,7 +103,7 @@ void Group::saveGroup(ofstream &fout) const
 
 void Group::loadGroup(ifstream &fin)
 {
-  int cnt;
+  int cnt = 0;
   this->centroid = TimeSeries(this->memberLength);
 
   for (int i = 0; i < this->memberLength; i++) {
@@ -110,9 +111,19 @@ void Group::loadGroup(ifstream &fin)
   }
 
   fin >> cnt; 
+  if (!fin || cnt < 1)
+  {
+    throw OnexException("Group file contains an invalid group");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
     fin >> index >> start;
+    if (!fin || index < 0 || index >= this->dataset.getItemCount()
+        || start < 0 || start >= this->subTimeSeriesCount
+        || this->memberMap[index * this->subTimeSeriesCount + start].groupIndex != -1)
+    {
+      throw OnexException("Group file contains an invalid group member");
+    }
     this->addMember(index, start);
   }
 }
diff --git a/src/Group.hpp b/src/Group.hpp
index d922a65..cdef2b5 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 7bc6e68..4c43bdd 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -106,12 +106,20 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
 int GroupableTimeSeriesSet::loadGroups(const string& path)
 {
   int numberOfGroups = 0;
+  if (!this->isLoaded())
+  {
+    throw OnexException("No data to load groups for");
+  }
   ifstream fin(path);
   if (fin)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
     fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!fin)
+    {
+      throw OnexException("Invalid group file");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw OnexException("Incompatible file version");
@@ -125,10 +133,17 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
       throw OnexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    GlobalGroupSpace* loadedGroups = new GlobalGroupSpace(*this);
+    try {
+      numberOfGroups = loadedGroups->loadGroups(fin);
+    } catch (...)
+    {
+      delete loadedGroups;
+      throw;
+    }
     reset();
     this->threshold = threshold;
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroups(fin);
+    this->groupsAllLengthSet = loadedGroups;
   }
   else
   {
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index ed38849..ac0d67b 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -137,13 +137,23 @@ void LocalLengthGroupSpace::saveGroups(ofstream &fout, bool groupSizeOnly) const
 int LocalLengthGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
-  int numberOfGroups;
+  int numberOfGroups = 0;
+  unsigned int numberOfMembers = 0;
   fin >> numberOfGroups;
+  if (!fin || numberOfGroups < 0)
+  {
+    throw OnexException("Group file contains an invalid number of groups");
+  }
   for (unsigned int i = 0; i < numberOfGroups; i++)
   {
     Group* grp = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
-    grp->loadGroup(fin);
     this->groups.push_back(grp);
+    grp->loadGroup(fin);
+    numberOfMembers += grp->getCount();
+  }
+  if (numberOfMembers != this->memberMap.size())
+  {
+    throw OnexException("Group file does not contain all members");
   }
   return numberOfGroups;
 }
-- 
2.43.0


From e95c3e3e4b007dbe0d228297b787ebecc55bdc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:05 +0000
Subject: [PATCH 21/21] fix: a table with very many lines and columns
 overflowed the array size

---
 src/TimeSeriesSet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index dffd890..611b9f9 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -116,6 +117,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
           this->clearData();
           throw OnexException("Starting column is out of range");
         }
+        if (length > std::numeric_limits<int>::max() / maxNumRow)
+        {
+          f.close();
+          this->clearData();
+          throw OnexException("File contains too many values");
+        }
         this->data = new data_t[maxNumRow * length];
         memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
-- 
2.43.0

