From 0fd71de070616770515be242197d62db678602ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 01/33] fix: grouping fewer than five subsequences no longer
 divides by zero when progress is logged

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 08949c2..98fc045 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -64,7 +64,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(1, totalTimeSeries / LOG_FREQ) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From afc80bfe161eb1ca4e4b017a6a1635e205f565d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 02/33] fix: match with a start but no end reports too few
 arguments instead of reading past the argument list

---
 cli/OnexCLI.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index f46b7dc..05623bc 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -369,7 +369,8 @@ MAKE_COMMAND(PAA,
 
 MAKE_COMMAND(Match,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
+    // 'start' and 'end' must be given together
+    if (tooFewArgs(args, args.size() > 4 ? 6 : 4) || tooManyArgs(args, 6))
     {
       return false;
     }
-- 
2.43.0


From 31dade9a7960bbcaa2a992cd7d15cfeeb2dfdad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:05 +0000
Subject: [PATCH 03/33] fix: the CLI frees lines from readline with free and
 does not leak the last one

---
 cli/OnexCLI.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index 05623bc..c680654 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -537,14 +538,16 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
+      free(raw_line);
       return true;
     }
   }
   while (strcmp(raw_line, "n") != 0);
+  free(raw_line);
   return false;
 }
 
@@ -574,7 +577,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 2e2398200d69867dbbd0069cf1a454b4f7e1c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:21 +0000
Subject: [PATCH 04/33] fix: a read or seek error while counting or reading
 lines is reported instead of shortening the dataset

---
 src/TimeSeriesSet.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d883352..20a98e6 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -24,8 +24,16 @@ int countNumberOfLines(std::ifstream& f)
   int lineCount = 0;
   string line;
   for (lineCount = 0; std::getline(f, line); ++lineCount);
+  if (f.bad())
+  {
+    throw OnexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
+  if (!f)
+  {
+    throw OnexException("Error while reading file");
+  }
   return lineCount;
 }
 
@@ -151,7 +159,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     }
   }
 
-  if (f.bad())
+  if (f.bad() || this->itemCount < maxNumRow)
   {
     f.close();
     this->clearData();
-- 
2.43.0


From 242986a26020e6cc952cd605d285d194decf979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 05/33] fix: loading an empty file or from a column the file
 does not have is an error

---
 src/TimeSeriesSet.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 20a98e6..2940e78 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -98,6 +98,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     maxNumRow = std::min(maxNumRow, countNumberOfLines(f));
   }
 
+  if (maxNumRow == 0)
+  {
+    f.close();
+    throw OnexException("File is empty");
+  }
+
   int length = -1;
   string line;
   boost::char_separator<char> sep(separators.c_str());
@@ -117,6 +123,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
       {
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
+        if (startCol < 0 || startCol >= length)
+        {
+          f.close();
+          this->clearData();
+          throw OnexException("Starting column is out of range");
+        }
         this->data = new data_t[maxNumRow * length];
         memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
 
-- 
2.43.0


From 2492117722dda7dce18f39c810667b17736a7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 06/33] fix: zero exactly the allocated dataset buffer and
 release it as an array

---
 src/TimeSeriesSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 2940e78..fd6ddad 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -130,7 +130,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
           throw OnexException("Starting column is out of range");
         }
         this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
+        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
@@ -324,7 +324,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
-  delete this->data;
+  delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
 }
-- 
2.43.0


From fa22fef32d3f6b529d8db0b7d6bc2a63e25bd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 07/33] fix: a load that runs out of memory does not leave a
 half-read dataset

---
 src/TimeSeriesSet.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index fd6ddad..90dea73 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -79,6 +79,14 @@ TimeSeries tsPAA(const TimeSeries& source, int n)
   return dest;
 }
 
+// Clears a dataset at the end of a scope unless the scope was completed
+struct ClearUnlessDone
+{
+  TimeSeriesSet* set;
+  bool done;
+  ~ClearUnlessDone() { if (!done) set->clearData(); }
+};
+
 void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
                              int startCol, const string& separators)
 {
@@ -104,6 +112,9 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("File is empty");
   }
 
+  // Parsing can also fail with other exceptions, for example when out of memory
+  ClearUnlessDone guard = { this, false };
+
   int length = -1;
   string line;
   boost::char_separator<char> sep(separators.c_str());
@@ -180,6 +191,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
 
   this->itemLength = length - startCol;
   this->filePath = filePath;
+  guard.done = true;
 
   f.close();
 }
-- 
2.43.0


From 06f6891522c8985ae2a6d86d1bf4617263777160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 08/33] fix: a saved dataset keeps every digit needed to reload
 the same values

---
 src/TimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 90dea73..546ea88 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -3,7 +3,9 @@
 #include <algorithm>
 #include <string>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -204,6 +206,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw OnexException(string("Cannot open ") + filePath);
   }
+  f << std::setprecision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     for (int j = 0; j < itemLength; j++) {
       f << data[i * itemLength + j] << separator;
-- 
2.43.0


From dc3e4636f3dbd6d01c6f4b4b9a5e79737bfe9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 09/33] fix: saving a dataset reports write and close errors

---
 src/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 546ea88..1cfa317 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -214,6 +214,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << std::endl;
   }
   f.close();
+  if (!f)
+  {
+    throw OnexException(string("Error while writing ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From 7e25b69deac608b67c9595314a65a4e0ffacb0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 10/33] fix: saving groups reports write and close errors

---
 src/GroupableTimeSeriesSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 96df068..7a6a34b 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -60,6 +60,11 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
     this->groupsAllLengthSet->saveGroups(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw OnexException("Error while writing file");
+    }
   }
   else
   {
-- 
2.43.0


From 1c45dddbd2770f46439d4a3ffc402bf86a8e339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 11/33] fix: saved groups keep every digit of the threshold and
 the representatives

---
 src/GroupableTimeSeriesSet.cpp | 3 +++
 src/TimeSeries.cpp             | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 7a6a34b..c591850 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -5,6 +5,8 @@
 #include <iostream>
 
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 using std::ofstream;
 using std::ifstream;
@@ -56,6 +58,7 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
   {
     // Version of the file format, the threshold and the required dataset dimensions
     fout << GROUP_FILE_VERSION << " " 
+         << std::setprecision(std::numeric_limits<data_t>::max_digits10)
          << this->threshold << " "
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 707dda2..08f458a 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -133,7 +133,7 @@ string TimeSeries::getIdentifierString() const
 void TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
 }
-- 
2.43.0


From 579601c94ecf6a5c4fb800bb7c054a526f1110cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 12/33] fix: normalize looks at every column when the series
 length is odd and the dataset size even

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 1cfa317..73446c1 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -266,7 +266,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
     data_t x, y, z;
 
     // start at 0 if even, 1 if odd
-    if ((i = (length % 2 != 0)))
+    if ((i = (this->itemLength % 2 != 0)))
     {
       if (data[ts * this->itemLength] < MIN)
       {
-- 
2.43.0


From ad25e4515e651e2dde048f4f998b23e340d605a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 13/33] fix: a grouping that fails keeps the previous groups

---
 src/GroupableTimeSeriesSet.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index c591850..1524046 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -7,6 +7,7 @@
 #include <fstream>
 #include <iomanip>
 #include <limits>
+#include <memory>
 
 using std::ofstream;
 using std::ifstream;
@@ -27,11 +28,12 @@ int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, da
     throw OnexException("No data to group");
   }
 
-  // clear old groups
-  reset();
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+  int cntGroups = newGroups->group(distance_name, threshold);
 
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-  int cntGroups = this->groupsAllLengthSet->group(distance_name, threshold);
+  // replace old groups only when the new ones are complete
+  reset();
+  this->groupsAllLengthSet = newGroups.release();
   this->threshold = threshold;
   return cntGroups;
 }
-- 
2.43.0


From 66ca750a9a25f0ca2c0f01e7bb2934f0f05cf86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:33 +0000
Subject: [PATCH 14/33] fix: a group is not leaked when the list of groups
 cannot grow

---
 src/LocalLengthGroupSpace.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 98fc045..5a0b791 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -89,8 +89,9 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       {
         bestSoFarIndex = this->groups.size();
         int newGroupIndex = this->groups.size();
-        this->groups.push_back(new Group(newGroupIndex, this->length, this->subTimeSeriesCount,
-                                         this->dataset, this->memberMap));
+        this->groups.push_back(nullptr);
+        this->groups.back() = new Group(newGroupIndex, this->length, this->subTimeSeriesCount,
+                                        this->dataset, this->memberMap);
         this->groups[bestSoFarIndex]->setCentroid(idx, start);
       }
 
-- 
2.43.0


From 9484a8c2d9e52c2ed4e7772527ea0344c8bad60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:38 +0000
Subject: [PATCH 15/33] fix: groups and the normalized flag do not outlive the
 values they describe

---
 src/GroupableTimeSeriesSet.cpp | 19 +++++++++++++++++++
 src/GroupableTimeSeriesSet.hpp |  8 ++++++++
 src/TimeSeriesSet.cpp          |  1 +
 src/TimeSeriesSet.hpp          |  6 +++---
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 1524046..be02205 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -21,6 +21,25 @@ GroupableTimeSeriesSet::~GroupableTimeSeriesSet()
   this->reset();
 }
 
+void GroupableTimeSeriesSet::clearData()
+{
+  this->reset();
+  TimeSeriesSet::clearData();
+}
+
+std::pair<data_t, data_t> GroupableTimeSeriesSet::normalize()
+{
+  std::pair<data_t, data_t> minMax = TimeSeriesSet::normalize();
+  this->reset();
+  return minMax;
+}
+
+void GroupableTimeSeriesSet::PAA(int n)
+{
+  TimeSeriesSet::PAA(n);
+  this->reset();
+}
+
 int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, data_t threshold)
 {
   if (!this->isLoaded())
diff --git a/src/GroupableTimeSeriesSet.hpp b/src/GroupableTimeSeriesSet.hpp
index e7d48c8..f4951a8 100644
--- a/src/GroupableTimeSeriesSet.hpp
+++ b/src/GroupableTimeSeriesSet.hpp
@@ -24,6 +24,14 @@ public:
    */
   ~GroupableTimeSeriesSet();
 
+  /**
+   *  @brief these change or discard the values of the dataset, so groups made for
+   *         the old values are discarded too
+   */
+  void clearData() override;
+  std::pair<data_t, data_t> normalize() override;
+  void PAA(int n) override;
+
   /**
    *  @brief groups the datset into similarity groups
    *
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 73446c1..f256b96 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -226,6 +226,7 @@ void TimeSeriesSet::clearData()
   this->data = nullptr;
   this->itemCount = 0;
   this->itemLength = 0;
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
diff --git a/src/TimeSeriesSet.hpp b/src/TimeSeriesSet.hpp
index c0622e6..cefdef6 100644
--- a/src/TimeSeriesSet.hpp
+++ b/src/TimeSeriesSet.hpp
@@ -61,7 +61,7 @@ public:
   /**
    * @brief clears all data
    */
-  void clearData();
+  virtual void clearData();
 
   /**
    * @brief gets length of each time series in the dataset
@@ -107,14 +107,14 @@ public:
    * @return a pair (min, max) - the minimum and maximum value across
    *          the whole dataset before being normalized.
    */
-  std::pair<data_t, data_t> normalize();
+  virtual std::pair<data_t, data_t> normalize();
 
   /**
   *  @brief check if the dataset is normalized
   */
   bool isNormalized() { return normalized; }
 
-  void PAA(int n);
+  virtual void PAA(int n);
 
   /**
     *  @brief calculates the distance between a subsequence of a series in this dataset to
-- 
2.43.0


From 58e541f02e67a7dd4dfde089309e5884c19833ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 16/33] fix: assigning a time series frees the old data,
 survives self-assignment and failed allocation, and drops the old envelope

---
 src/TimeSeries.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 08f458a..409a4d9 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -14,34 +14,46 @@ namespace onex {
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  data_t* newData = other.data;
+  if (other.isOwnerOfData)
+  {
+    newData = new data_t[other.length];
+    memcpy(newData, other.data, other.length * sizeof(data_t));
+  }
   if (isOwnerOfData) {
     delete[] this->data;
   }
+  this->data = newData;
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
   start = other.start;
   end = other.end;
   length = other.length;
-  if (other.isOwnerOfData)
-  {
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
-  }
-  else {
-    this->data = other.data;
-  }
+  keoghCacheValid = false;
   return *this;
 }
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  if (isOwnerOfData) {
+    delete[] this->data;
+  }
   data = other.data;
   index = other.index;
   start = other.start;
   end = other.end;
   length = other.length;
   isOwnerOfData = other.isOwnerOfData;
+  keoghCacheValid = false;
   other.data = nullptr;
+  other.length = 0;
+  other.keoghCacheValid = false;
   return *this;
 }
 
-- 
2.43.0


From 0aa5223bdb74f5a4e9ce8506e76f40111a998f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:05 +0000
Subject: [PATCH 17/33] fix: a time series releases its data as an array

---
 src/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 409a4d9..cec2d23 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -62,7 +62,7 @@ TimeSeries::~TimeSeries()
   // if object allocated the data, delete it
   if (this->isOwnerOfData)
   {
-    delete this->data;
+    delete[] this->data;
     this->data = nullptr;
   }
   delete[] keoghLower;
-- 
2.43.0


From 08bb5e6cfaeec51be383aadac81c9c73c1e247e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 18/33] fix: an envelope that could not be allocated is not
 taken for a valid one

---
 src/TimeSeries.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index cec2d23..25c8ef8 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -113,6 +113,7 @@ const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
 
 void TimeSeries::generateKeoghLU(int warpingBand) const
 {
+  keoghCacheValid = false;
   delete[] keoghLower;
   keoghLower = nullptr;
   delete[] keoghUpper;
-- 
2.43.0


From 042e8d823bab6f9c0bcada4f44442a5c0dffad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 19/33] fix: report running out of memory for the envelope
 queues

---
 src/lib/deque.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/deque.cpp b/src/lib/deque.cpp
index df2117b..cb371d8 100644
--- a/src/lib/deque.cpp
+++ b/src/lib/deque.cpp
@@ -1,5 +1,6 @@
 #include "deque.h"
 #include <stdlib.h>
+#include <new>
 
 /// Initial the queue at the begining step of envelop calculation
 deque::deque(int capacity)
@@ -7,6 +8,8 @@ deque::deque(int capacity)
     this->capacity = capacity;
     size = 0;
     data = (int *) malloc(sizeof(int)*capacity);
+    if (data == NULL)
+        throw std::bad_alloc();
     f = 0;
     r = capacity-1;
 }
-- 
2.43.0


From 1f31c525d77c977259304197b7b237fb70552210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 20/33] fix: a query that no group is comparable to is an error

---
 src/GlobalGroupSpace.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5ca33e6..c3f2505 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -11,6 +11,7 @@
 #include "TimeSeries.hpp"
 #include "TimeSeriesSet.hpp"
 #include "distance/Distance.hpp"
+#include "Exception.hpp"
 #include "Group.hpp"
 
 using std::vector;
@@ -76,6 +77,9 @@ candidate_time_series_t GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       bestSoFarDist = candidate.second;
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw OnexException("No group is comparable to the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -120,7 +124,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -129,7 +135,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
-- 
2.43.0


From b587870131e08bdefd19911050ffca2f98836165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 21/33] fix: a group without a comparable member does not read
 an uninitialized position

---
 src/Group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Group.cpp b/src/Group.cpp
index 57df2fe..dff0ee2 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -39,7 +39,7 @@ candidate_time_series_t Group::getBestMatch(const TimeSeries& query, const dist_
   member_coord_t currentMemberCoord = this->lastMemberCoord;
 
   data_t bestSoFarDist = INF;
-  member_coord_t bestSoFarMember;
+  member_coord_t bestSoFarMember(-1, -1);
 
   while (currentMemberCoord.first != -1)
   {
-- 
2.43.0


From 4c3cb49436302d044fd15caf58c3dcad27d91730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 22/33] fix: a load that fails with any exception neither leaks
 the dataset nor keeps its handle

---
 src/OnexAPI.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/OnexAPI.cpp b/src/OnexAPI.cpp
index ebdbc74..3c2a0d7 100644
--- a/src/OnexAPI.cpp
+++ b/src/OnexAPI.cpp
@@ -1,5 +1,7 @@
 #include "OnexAPI.hpp"
 
+#include <memory>
+
 #include "Exception.hpp"
 #include "GroupableTimeSeriesSet.hpp"
 #include "distance/Distance.hpp"
@@ -18,14 +20,8 @@ dataset_info_t OnexAPI::loadDataset(const string& filePath, int maxNumRow,
                                      int startCol, const string& separators)
 {
 
-  GroupableTimeSeriesSet* newSet = new GroupableTimeSeriesSet();
-  try {
-    newSet->loadData(filePath, maxNumRow, startCol, separators);
-  } catch (OnexException& e)
-  {
-    delete newSet;
-    throw e;
-  }
+  std::unique_ptr<GroupableTimeSeriesSet> newSet(new GroupableTimeSeriesSet());
+  newSet->loadData(filePath, maxNumRow, startCol, separators);
 
   int nextIndex = -1;
   for (unsigned int i = 0; i < this->loadedDatasets.size(); i++)
@@ -39,13 +35,23 @@ dataset_info_t OnexAPI::loadDataset(const string& filePath, int maxNumRow,
 
   if (nextIndex < 0) {
     nextIndex = this->loadedDatasets.size();
+  }
+
+  // Prepare everything that can fail before the dataset gets its handle
+  dataset_info_t info(nextIndex,
+                      newSet->getFilePath(),
+                      newSet->getItemCount(),
+                      newSet->getItemLength(),
+                      newSet->isGrouped(),
+                      newSet->isNormalized());
+  if (nextIndex == this->loadedDatasets.size()) {
     this->loadedDatasets.push_back(nullptr);
   }
 
-  this->loadedDatasets[nextIndex] = newSet;
+  this->loadedDatasets[nextIndex] = newSet.release();
   this->datasetCount++;
 
-  return this->getDatasetInfo(nextIndex);
+  return info;
 }
 
 void OnexAPI::saveDataset(int index, const string& filePath, char separator)
-- 
2.43.0


From dfba436f7c727db359e5ca965ecf9c2c4b4460ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 23/33] fix: PAA does not report failure after the data was
 changed

---
 src/OnexAPI.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/OnexAPI.cpp b/src/OnexAPI.cpp
index 3c2a0d7..ab3222a 100644
--- a/src/OnexAPI.cpp
+++ b/src/OnexAPI.cpp
@@ -155,8 +155,12 @@ candidate_time_series_t OnexAPI::getBestMatch(int result_idx, int query_idx, int
 dataset_info_t OnexAPI::PAA(int idx, int n)
 {
   this->_checkDatasetIndex(idx);
+  // Prepared first, so that nothing can fail once the data is changed
+  dataset_info_t info = this->getDatasetInfo(idx);
   this->loadedDatasets[idx]->PAA(n);
-  return this->getDatasetInfo(idx);
+  info.itemLength = this->loadedDatasets[idx]->getItemLength();
+  info.isGrouped = this->loadedDatasets[idx]->isGrouped();
+  return info;
 }
 
 
-- 
2.43.0


From a49808ff8ba662a138e1e697223ca528f880f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 24/33] fix: loading groups keeps the old groups until the new
 ones are complete

---
 src/GroupableTimeSeriesSet.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index be02205..b5afacd 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -105,6 +105,10 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
     int version, grpItemCount, grpItemLength;
     data_t threshold;
     fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!fin)
+    {
+      throw OnexException("Invalid group file");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw OnexException("Incompatible file version");
@@ -118,10 +122,13 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
       throw OnexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroups(fin);
+
+    // replace old groups only when the new ones are complete
     reset();
     this->threshold = threshold;
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroups(fin);
+    this->groupsAllLengthSet = newGroups.release();
   }
   else
   {
-- 
2.43.0


From cf84ac1f6fabec3f5ee4c781b343988614df021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 25/33] fix: a group file that is incomplete or does not fit
 the dataset is refused

---
 src/GlobalGroupSpace.cpp       |  6 +++++-
 src/Group.cpp                  | 10 ++++++++++
 src/Group.hpp                  |  2 +-
 src/GroupableTimeSeriesSet.cpp |  4 ++++
 src/LocalLengthGroupSpace.cpp  | 16 +++++++++++++---
 5 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index c3f2505..ae814cc 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -106,13 +106,17 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
   int numberOfGroups = 0;
   string distance;
   fin >> lenFrom >> lenTo >> distance;
+  if (!fin || lenFrom != 2 || lenTo != dataset.getItemLength() + 1)
+  {
+    throw OnexException("Invalid range of lengths in group file");
+  }
   boost::trim_right(distance);
   this->loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getItemLength() + 1, nullptr);  
   for (unsigned int i = lenFrom; i < lenTo; i++) {
     LocalLengthGroupSpace* gel = new LocalLengthGroupSpace(dataset, i);
-    numberOfGroups += gel->loadGroups(fin);
     this->localLengthGroupSpace[i] = gel;
+    numberOfGroups += gel->loadGroups(fin);
   }
   return numberOfGroups;
 }
diff --git a/src/Group.cpp b/src/Group.cpp
index dff0ee2..e8e3d34 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -5,6 +5,7 @@
 #include <vector>
 #include <algorithm>
 
+#include "Exception.hpp"
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
 
@@ -110,9 +111,18 @@ void Group::loadGroup(ifstream &fin)
   }
 
   fin >> cnt; 
+  if (!fin || cnt <= 0) {
+    throw OnexException("Invalid group in group file");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
     fin >> index >> start;
+    // Each member must exist in the dataset and belong to no other group
+    if (!fin || index < 0 || index >= this->dataset.getItemCount()
+             || start < 0 || start >= this->subTimeSeriesCount
+             || this->memberMap[index * this->subTimeSeriesCount + start].groupIndex != -1) {
+      throw OnexException("Invalid group member in group file");
+    }
     this->addMember(index, start);
   }
 }
diff --git a/src/Group.hpp b/src/Group.hpp
index d922a65..f88faa8 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : prev(-1, -1), groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index b5afacd..c93d501 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -121,6 +121,10 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
     {
       throw OnexException("Incompatible item length");
     }
+    if (!this->isLoaded())
+    {
+      throw OnexException("No data to group");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
     std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
     numberOfGroups = newGroups->loadGroups(fin);
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 5a0b791..f212666 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -139,12 +139,22 @@ int LocalLengthGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
   int numberOfGroups;
+  int numberOfMembers = 0;
   fin >> numberOfGroups;
+  if (!fin || numberOfGroups < 0)
+  {
+    throw OnexException("Invalid number of groups in group file");
+  }
   for (unsigned int i = 0; i < numberOfGroups; i++)
   {
-    Group* grp = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
-    grp->loadGroup(fin);
-    this->groups.push_back(grp);
+    this->groups.push_back(nullptr);
+    this->groups.back() = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
+    this->groups.back()->loadGroup(fin);
+    numberOfMembers += this->groups.back()->getCount();
+  }
+  if (numberOfMembers != this->memberMap.size())
+  {
+    throw OnexException("Group file does not cover the whole dataset");
   }
   return numberOfGroups;
 }
-- 
2.43.0


From c934401fb200a12b60a2462103def7d7afaf8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 26/33] fix: a token with text after a number is unparsable,
 not a shorter number

---
 src/TimeSeriesSet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index f256b96..af2c478 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -162,7 +162,13 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         {
           try
           {
-            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter);
+            size_t parsed;
+            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter, &parsed);
+            // Only white space, such as the end of a DOS line, may follow the number
+            if (tok_iter->find_first_not_of(" \t\v\f\r", parsed) != string::npos)
+            {
+              throw std::invalid_argument("Trailing text after a number");
+            }
           }
           catch (const std::invalid_argument& e)
           {
-- 
2.43.0


From fe100b0806b05e0c3df1ffddc3d38b5075f5000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 27/33] fix: PAA of a dataset without data is refused instead
 of making it count as loaded

---
 src/TimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index af2c478..cb6edbe 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -343,6 +343,9 @@ void TimeSeriesSet::PAA(int n)
   if (n <= 0) {
     throw OnexException("Block size must be positive");
   }
+  if (!this->isLoaded()) {
+    throw OnexException("No data to aggregate");
+  }
   int newItemLength = calcPAALength(this->itemLength, n);
   data_t* new_data = new data_t[this->itemCount * newItemLength];
   for (int ts = 0; ts < this->itemCount; ts++)
-- 
2.43.0


From 53a5540a04ae3a2435a9ca1b8663f3fdebbbfc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:09 +0000
Subject: [PATCH 28/33] fix: load dataset values that are subnormal numbers, as
 a save can write them

---
 src/TimeSeriesSet.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index cb6edbe..fb9e916 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -1,6 +1,9 @@
 #include "TimeSeriesSet.hpp"
 
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <string>
 #include <fstream>
 #include <iomanip>
@@ -160,28 +163,25 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         // Only read columns from startCol and after
         if (col >= startCol)
         {
-          try
-          {
-            size_t parsed;
-            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter, &parsed);
-            // Only white space, such as the end of a DOS line, may follow the number
-            if (tok_iter->find_first_not_of(" \t\v\f\r", parsed) != string::npos)
-            {
-              throw std::invalid_argument("Trailing text after a number");
-            }
-          }
-          catch (const std::invalid_argument& e)
+          const char* text = tok_iter->c_str();
+          char* end;
+          errno = 0;
+          double value = std::strtod(text, &end);
+          // Only white space, such as the end of a DOS line, may follow the number
+          if (end == text || tok_iter->find_first_not_of(" \t\v\f\r", end - text) != string::npos)
           {
             f.close();
             this->clearData();
             throw OnexException("Dataset file contains unparsable text");
           }
-          catch (const std::out_of_range& e)
+          // A subnormal number is reported as out of range, too, but is a fine value
+          if (errno == ERANGE && (value == 0 || std::isinf(value)))
           {
             f.close();
             this->clearData();
             throw OnexException("Values are out of range");
           }
+          data[row * (length - startCol) + (col - startCol)] = (data_t)value;
         }
       }
     }
-- 
2.43.0


From cefd357fe16ba24c684953601ac530e0aa241f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:13 +0000
Subject: [PATCH 29/33] fix: read back group files whose threshold or
 representatives are infinite or not a number

---
 src/Group.cpp                  | 24 +++++++++++++++++++++++-
 src/Group.hpp                  |  7 +++++++
 src/GroupableTimeSeriesSet.cpp |  4 +++-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/Group.cpp b/src/Group.cpp
index e8e3d34..c56b456 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -1,6 +1,10 @@
 #include "Group.hpp"
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <iostream>
+#include <string>
 #include <fstream>
 #include <vector>
 #include <algorithm>
@@ -16,6 +20,24 @@ using std::endl;
 
 namespace onex {
 
+std::istream& readValue(std::istream& in, data_t& value)
+{
+  std::string text;
+  if (in >> text)
+  {
+    char* end;
+    errno = 0;
+    double parsed = std::strtod(text.c_str(), &end);
+    // A subnormal number is reported as out of range, too, but is a fine value
+    if (end != text.c_str() + text.size() || (errno == ERANGE && (parsed == 0 || std::isinf(parsed))))
+    {
+      in.setstate(std::ios::failbit);
+    }
+    value = parsed;
+  }
+  return in;
+}
+
 void Group::addMember(int tsIndex, int tsStart)
 {
   this->count++;
@@ -107,7 +129,7 @@ void Group::loadGroup(ifstream &fin)
   this->centroid = TimeSeries(this->memberLength);
 
   for (int i = 0; i < this->memberLength; i++) {
-    fin >> this->centroid[i];
+    readValue(fin, this->centroid[i]);
   }
 
   fin >> cnt; 
diff --git a/src/Group.hpp b/src/Group.hpp
index f88faa8..43451e2 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -11,6 +11,13 @@
 
 namespace onex {
 
+/**
+ *  @brief reads a value as it is written to a group file, which unlike
+ *         operator>> includes infinities and values that are not a number.
+ *         Sets failbit when there is no such value.
+ */
+std::istream& readValue(std::istream& in, data_t& value);
+
 /**
  *  In context of a group, a member is represented by the index of a whole time
  *  series in a dataset and the starting position. These two numbers make up the
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index c93d501..990d6d0 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -104,7 +104,9 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    fin >> version;
+    readValue(fin, threshold);
+    fin >> grpItemCount >> grpItemLength;
     if (!fin)
     {
       throw OnexException("Invalid group file");
-- 
2.43.0


From 2e3cbf4624347d211150d3ad0ecbeae4e1199d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:17 +0000
Subject: [PATCH 30/33] fix: do not use an uninitialised group index when no
 group is at a finite distance

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index f212666..aeb84e6 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -73,7 +73,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = 0;
 
       for (unsigned int i = 0; i < groups.size(); i++)
       {
-- 
2.43.0


From 8b052f1b53b288ff1b3e1a81da6177e074c68d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:26 +0000
Subject: [PATCH 31/33] fix: refuse hexadecimal numbers in group files, as
 before

---
 src/Group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Group.cpp b/src/Group.cpp
index c56b456..37d39b4 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -29,7 +29,9 @@ std::istream& readValue(std::istream& in, data_t& value)
     errno = 0;
     double parsed = std::strtod(text.c_str(), &end);
     // A subnormal number is reported as out of range, too, but is a fine value
-    if (end != text.c_str() + text.size() || (errno == ERANGE && (parsed == 0 || std::isinf(parsed))))
+    // Like operator>>, do not take hexadecimal numbers
+    if (end != text.c_str() + text.size() || text.find_first_of("xX") != std::string::npos
+        || (errno == ERANGE && (parsed == 0 || std::isinf(parsed))))
     {
       in.setstate(std::ios::failbit);
     }
-- 
2.43.0


From f6f37369a00f078d328c69d56151f78458a7de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:30 +0000
Subject: [PATCH 32/33] fix: running out of memory while taking a line
 terminated the command line program

---
 cli/OnexCLI.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index c680654..f51fa0a 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <iomanip>
 #include <map>
+#include <memory>
 #include <vector>
 #include <cmath>
 #include <boost/tokenizer.hpp>
@@ -576,11 +577,10 @@ int main (int argc, char *argv[])
       {
         add_history(raw_line);
       }
-      string line = string(raw_line);
-      free(raw_line);
+      std::unique_ptr<char, void (*)(void*)> owner(raw_line, free);
       try
       {
-        quit = processLine(line);
+        quit = processLine(raw_line);
       }
       catch (onex::OnexException& e)
       {
-- 
2.43.0


From 20d59370241e7609ad7c00aebadcb4d732ce8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 33/33] fix: refuse a negative warping band ratio and allow a
 very large one

---
 src/distance/Distance.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 088f842..074dfda 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -126,13 +126,17 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
+  // This is also false when the ratio is not a number
+  if (!(ratio >= 0)) {
+    throw OnexException("Warping band ratio must not be negative");
+  }
   warpingBandRatio = ratio;
 }
 
 int calculateWarpingBandSize(int length)
 {
-  int bandSize = floor(length * warpingBandRatio);
-  return std::min(bandSize, length - 1);
+  // Compared as numbers with fractions because a large ratio does not fit into an integer
+  return std::min(length - 1.0, floor(length * warpingBandRatio));
 }
 
 data_t kimLowerBound(const TimeSeries& a, const TimeSeries& b, data_t dropout)
-- 
2.43.0

