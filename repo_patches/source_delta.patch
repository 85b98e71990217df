From 0edb45e6cfdbd062dbe0f4c5ded724800e8f665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 01/41] fix: semi-supervised training learns the unlabelled
 entries, not the first ones

The unsupervised phase of ClusWisard::train(images, labels) iterated over the
list of unlabelled positions but trained images[i] instead of
images[labelless[i]], and the list itself was sized from labels.size(), which
wrote out of bounds when a key was not an input position.
---
 include/wisardpkg.hpp               | 13 +++----------
 src/models/cluswisard/cluswisard.cc | 13 +++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5446a20..1e8de3d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19318,18 +19318,11 @@ public:
     checkConfidence(numberOfRAMS);
     checkInputLabels(images.size(), labels);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -19341,7 +19334,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b255473..6cf453b 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -93,18 +93,11 @@ public:
     checkConfidence(numberOfRAMS);
     checkInputLabels(images.size(), labels);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -116,7 +109,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-- 
2.43.0


From 0b9a9604bd0da408de5045168d5a264d38c51598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 02/41] fix: trainUnsupervised keeps what it learned and works
 after supervised training

The unsupervised cluster was recreated by every call while no class existed,
was never initialised once one did, and ignored the configured base.
---
 include/wisardpkg.hpp               | 4 ++--
 src/models/cluswisard/cluswisard.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1e8de3d..7c29b9b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19341,8 +19341,8 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 6cf453b..e50010e 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -116,8 +116,8 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
-- 
2.43.0


From 87599022f8d3308601127407c4a97d3544846ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 03/41] fix: getMentalImage of an unknown label does not create
 a broken class

operator[] inserted a default-constructed Cluster with uninitialised settings,
which later training and json() used.
---
 include/wisardpkg.hpp               | 4 +++-
 src/models/cluswisard/cluswisard.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7c29b9b..867c770 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19382,7 +19382,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index e50010e..3c15c4a 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -157,7 +157,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
-- 
2.43.0


From c3c46a0e3440b92985ed86f688b2716caa741e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 04/41] fix: ClusWisard returns labels that contain "::"
 unchanged

The class is recovered from "<label>::<index>" keys; the separator to cut at is
the last one, not the first.
---
 include/wisardpkg.hpp               | 6 +++---
 src/models/cluswisard/cluswisard.cc | 6 +++---
 src/wrappers/cluswisardwrapper.cc   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 867c770..e40a95f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19357,7 +19357,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19372,7 +19372,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19442,7 +19442,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 3c15c4a..dde999e 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -132,7 +132,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -147,7 +147,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -217,7 +217,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 92c85ca..310e78d 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -46,7 +46,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      std::string aClass = label.substr(0,label.find("::"));
+      std::string aClass = label.substr(0,label.rfind("::"));
 
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
@@ -85,7 +85,7 @@ protected:
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
     if(total == 0) total=1;
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i){
-      std::string aClass = i->first.substr(0,i->first.find("::"));
+      std::string aClass = i->first.substr(0,i->first.rfind("::"));
       output[index] = py::dict(py::arg("class")=aClass, py::arg("degree")=(i->second/total));
       index++;
     }
-- 
2.43.0


From 09f5c70e4039ef426b6ee1f6bf1119baeaa61232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 05/41] fix: empty batches no longer read a first entry that
 does not exist

train, trainUnsupervised and classify crashed on empty lists and data sets.
---
 include/wisardpkg.hpp               | 25 +++++++++++++++++--------
 src/models/cluswisard/cluswisard.cc | 13 +++++++++----
 src/models/wisard/wisard.cc         | 12 ++++++++----
 src/wrappers/cluswisardwrapper.cc   |  4 +++-
 src/wrappers/wisardwrapper.cc       |  4 +++-
 5 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e40a95f..b65694d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18847,8 +18847,10 @@ public:
   }
 
   void train(const DataSet& dataset) {
-    int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
-    checkConfidence(numberOfRAMS);
+    if(dataset.size() > 0){
+      int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
+      checkConfidence(numberOfRAMS);
+    }
     for(size_t i=0; i<dataset.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << dataset.size();
       train<BinInput>(dataset[i], dataset.getLabel(i));
@@ -18856,8 +18858,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
-    int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-    checkConfidence(numberOfRAMS);
+    if(!images.empty()){
+      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+      checkConfidence(numberOfRAMS);
+    }
     checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -19302,8 +19306,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
-    int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-    checkConfidence(numberOfRAMS);
+    if(!images.empty()){
+      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+      checkConfidence(numberOfRAMS);
+    }
     checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
@@ -19314,8 +19320,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
-    int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-    checkConfidence(numberOfRAMS);
+    if(!images.empty()){
+      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+      checkConfidence(numberOfRAMS);
+    }
     checkInputLabels(images.size(), labels);
 
     std::vector<int> labelless;
@@ -19341,6 +19349,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if(unsupervisedCluster.getSize()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index dde999e..6f0ed6b 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -77,8 +77,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
-    int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-    checkConfidence(numberOfRAMS);
+    if(!images.empty()){
+      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+      checkConfidence(numberOfRAMS);
+    }
     checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
@@ -89,8 +91,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
-    int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-    checkConfidence(numberOfRAMS);
+    if(!images.empty()){
+      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+      checkConfidence(numberOfRAMS);
+    }
     checkInputLabels(images.size(), labels);
 
     std::vector<int> labelless;
@@ -116,6 +120,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if(unsupervisedCluster.getSize()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 9fb8420..787da81 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -74,8 +74,10 @@ public:
   }
 
   void train(const DataSet& dataset) {
-    int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
-    checkConfidence(numberOfRAMS);
+    if(dataset.size() > 0){
+      int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
+      checkConfidence(numberOfRAMS);
+    }
     for(size_t i=0; i<dataset.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << dataset.size();
       train<BinInput>(dataset[i], dataset.getLabel(i));
@@ -83,8 +85,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
-    int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-    checkConfidence(numberOfRAMS);
+    if(!images.empty()){
+      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+      checkConfidence(numberOfRAMS);
+    }
     checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 310e78d..7a69443 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -39,9 +39,11 @@ public:
   }
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
+    py::list labels(images.size());
+    if(images.size() == 0) return labels;
+
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
-    py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2d55d87..4a8a32e 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -91,9 +91,11 @@ protected:
 
   template<typename T>
   py::list _pyClassify(const T& images){
+    py::list labels(images.size());
+    if(images.size() == 0) return labels;
+
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
-    py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
-- 
2.43.0


From f052ea686af8537b8a286c4bce0c028b503ec676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 06/41] fix: an address size of zero is rejected instead of
 dividing by it

---
 include/wisardpkg.hpp | 2 ++
 src/common/utils.cc   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b65694d..b260dfe 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17351,6 +17351,8 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1)
+    throw Exception("The address size cann't be lesser than 1!");
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d87aa8f..d9433f0 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -21,6 +21,8 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1)
+    throw Exception("The address size cann't be lesser than 1!");
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
-- 
2.43.0


From db605eedf7c0d4623c344cab63b0d0915111ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 07/41] fix: negative indexes are rejected

They passed the check and were used to read before the entry.
---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/discriminator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b260dfe..5bf1a35 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18757,7 +18757,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 082b411..5f9b392 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -352,7 +352,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
-- 
2.43.0


From e0472ecbf7b30afb2710d19056d080a9e4bee6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 08/41] fix: a mapping with positions outside the entry is
 rejected

It was accepted and then read out of the bounds of every entry.
---
 include/wisardpkg.hpp              | 11 +++++++++++
 src/models/wisard/discriminator.cc | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5bf1a35..c6baed8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18617,6 +18617,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping, entrySize);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -18750,6 +18751,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping, const int entrySize) const{
+    for(const std::vector<int>& positions : mapping){
+      for(int position : positions){
+        if(position < 0 || position >= entrySize){
+          throw Exception("The mapping has a position out of range of entry!");
+        }
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 5f9b392..5d43f06 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -212,6 +212,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping, entrySize);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -345,6 +346,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping, const int entrySize) const{
+    for(const std::vector<int>& positions : mapping){
+      for(int position : positions){
+        if(position < 0 || position >= entrySize){
+          throw Exception("The mapping has a position out of range of entry!");
+        }
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
-- 
2.43.0


From e5bc74155f365a57edec4db5f6d9fc11e13ee273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/41] fix: address spaces above 2^64 are rejected for every
 base

ipow overflowed and its result could never exceed the limit it was compared to,
so that for bases other than 2 different patterns shared one address.
---
 include/wisardpkg.hpp    | 11 +++++++----
 src/models/wisard/ram.cc | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c6baed8..6bf2ae5 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18384,10 +18384,13 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
-    const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggestAddress = 0;
+    for(int i=0; i<addressSize; i++){
+      const addr_t limit = -1;
+      if(biggestAddress > (limit - (basein-1)) / basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggestAddress = biggestAddress*basein + (basein-1);
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index cfc2a0e..6d8b869 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -164,10 +164,13 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
-    const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggestAddress = 0;
+    for(int i=0; i<addressSize; i++){
+      const addr_t limit = -1;
+      if(biggestAddress > (limit - (basein-1)) / basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggestAddress = biggestAddress*basein + (basein-1);
     }
   }
 
-- 
2.43.0


From cb0b1f487e46d38ce5978751fd96f0dc18e956f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 10/41] fix: mental images of RAMs with addresses above 2^31

The 64-bit address was truncated to int before it was split into digits.
---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6bf2ae5..9714820 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18373,9 +18373,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 6d8b869..c68902b 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -153,9 +153,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
-- 
2.43.0


From fc6a35172a56e811fafc79e9ce91a6b498e6395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 11/41] fix: the lead required by confidence does not depend on
 the order of labels

A class overtaking the leader cleared the ambiguity even when the overtaken
class was closer than the confidence.
---
 include/wisardpkg.hpp   | 9 +++++----
 src/common/bleaching.cc | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 9714820..96d97f7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17538,16 +17538,17 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = candidates.size() > 1 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 56f417b..474ccfc 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -62,16 +62,17 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = candidates.size() > 1 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
-- 
2.43.0


From e0f4e6706c45a8b43ec69d57f699cb4a14a48a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 12/41] fix: Synthesizer of a mental image without activity
 divides by zero

---
 include/wisardpkg.hpp              | 3 ++-
 src/synthetic_data/synthesizers.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 96d97f7..e1ede47 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17765,8 +17765,9 @@ public:
   }
 
   std::vector<int> make(){
+    std::vector<int> out(cube.size(), 0);
+    if(maxData == 0) return out;
     int index = randint(0, maxData-1);
-    std::vector<int> out(cube.size());
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 21c917b..c48a34b 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -8,8 +8,9 @@ public:
   }
 
   std::vector<int> make(){
+    std::vector<int> out(cube.size(), 0);
+    if(maxData == 0) return out;
     int index = randint(0, maxData-1);
-    std::vector<int> out(cube.size());
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
-- 
2.43.0


From 21ae259cc2a6b8e0d89995b9908c1219fd7e598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 13/41] fix: KernelCanvas built from C++ options never set its
 dimension

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e1ede47..a28f375 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17819,7 +17819,7 @@ class BinBase {
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 962f121..c15c356 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -1,7 +1,7 @@
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
-- 
2.43.0


From 10e31f3c2e5e08c18186c01bffcfdfc351cdf63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 14/41] fix: KernelCanvas checks the points before computing
 their mean

---
 include/wisardpkg.hpp            | 3 ++-
 src/binarization/kernelcanvas.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a28f375..fec2379 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17835,6 +17835,8 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
+
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17849,7 +17851,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c15c356..a363f8d 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -17,6 +17,8 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
+
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -31,7 +33,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
-- 
2.43.0


From cb7f3805d12433456890114c6a31d119c235d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 15/41] fix: KernelCanvas with useDirection writes outside its
 point

---
 include/wisardpkg.hpp            | 16 +++++++++-------
 src/binarization/kernelcanvas.cc | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index fec2379..b9940a6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17852,6 +17852,7 @@ public:
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
+      first = false;
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
     }
@@ -17924,8 +17925,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -17943,7 +17944,7 @@ protected:
           int ix = indexes[pi]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
+          if(j%amplifyDim == amplifyDim-1) pi++;
         }
       }
       else{
@@ -17977,7 +17978,8 @@ protected:
     if(useDirection){
       int ix = switchIndexes(indexes);
 
-      int ipp = ix*amplifyDim;
+      int slot = ix*amplifyDim;
+      int ipp = slot;
       point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
       double aback = 0.0;
       double afront = 0.0;
@@ -17986,7 +17988,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = slot + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -17999,7 +18001,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -18009,8 +18011,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[slot +j];
+          point[indexes[2]*amplifyDim +j] = point[slot +j];
         }
       }
     }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index a363f8d..2dbbc1e 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -34,6 +34,7 @@ public:
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
+      first = false;
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
     }
@@ -106,8 +107,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -125,7 +126,7 @@ protected:
           int ix = indexes[pi]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
+          if(j%amplifyDim == amplifyDim-1) pi++;
         }
       }
       else{
@@ -159,7 +160,8 @@ protected:
     if(useDirection){
       int ix = switchIndexes(indexes);
 
-      int ipp = ix*amplifyDim;
+      int slot = ix*amplifyDim;
+      int ipp = slot;
       point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
       double aback = 0.0;
       double afront = 0.0;
@@ -168,7 +170,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = slot + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -181,7 +183,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -191,8 +193,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[slot +j];
+          point[indexes[2]*amplifyDim +j] = point[slot +j];
         }
       }
     }
-- 
2.43.0


From df15da22f53da6690d3bbfcf762ecdd6008648e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 16/41] fix: KernelCanvas ignores every coordinate when one of
 them is constant

---
 include/wisardpkg.hpp            | 19 ++++++++++++-------
 src/binarization/kernelcanvas.cc | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b9940a6..ca3310f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17931,6 +17931,11 @@ protected:
     return temp;
   }
 
+  // a coordinate that never changes has no deviation to be normalized by
+  static double normalize(double value, double mean, double stddev){
+    return stddev > 0 ? std::tanh((mean - value)/stddev) : 0.0;
+  }
+
   void calculateDistances(
     std::vector<std::vector<double>>& distances,
     const std::vector<double>& point,
@@ -17980,25 +17985,25 @@ protected:
 
       int slot = ix*amplifyDim;
       int ipp = slot;
-      point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
+      point[ipp] = normalize(sequenceData[index][0], means[0], stds[0]);
       double aback = 0.0;
       double afront = 0.0;
       if(index+1 < (int)sequenceData.size())
-        aback = std::tanh((means[0] - sequenceData[index+1][0])/stds[0]);
+        aback = normalize(sequenceData[index+1][0], means[0], stds[0]);
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
         int sinix = slot + dim + 2*(j-1);
 
-        point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[ip] = normalize(sequenceData[index][j], means[j], stds[j]);
         if(index+1 < (int)sequenceData.size()){
-          afront = std::tanh((means[j] - sequenceData[index+1][j])/stds[j]);
+          afront = normalize(sequenceData[index+1][j], means[j], stds[j]);
 
           double dx = aback - point[ipp];
           double dy = afront - point[ip];
           double hypotenuse = std::sqrt( dy*dy + dx*dx );
-          point[sinix] = dx/hypotenuse;
-          point[sinix+1] = dy/hypotenuse;
+          point[sinix] = hypotenuse > 0 ? dx/hypotenuse : 0.0;
+          point[sinix+1] = hypotenuse > 0 ? dy/hypotenuse : 0.0;
         }
         else{
           int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
@@ -18018,7 +18023,7 @@ protected:
     }
     else{
       for(int j=0; j<dim; j++){
-        point[j] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[j] = normalize(sequenceData[index][j], means[j], stds[j]);
       }
     }
   }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 2dbbc1e..427eadf 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -113,6 +113,11 @@ protected:
     return temp;
   }
 
+  // a coordinate that never changes has no deviation to be normalized by
+  static double normalize(double value, double mean, double stddev){
+    return stddev > 0 ? std::tanh((mean - value)/stddev) : 0.0;
+  }
+
   void calculateDistances(
     std::vector<std::vector<double>>& distances,
     const std::vector<double>& point,
@@ -162,25 +167,25 @@ protected:
 
       int slot = ix*amplifyDim;
       int ipp = slot;
-      point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
+      point[ipp] = normalize(sequenceData[index][0], means[0], stds[0]);
       double aback = 0.0;
       double afront = 0.0;
       if(index+1 < (int)sequenceData.size())
-        aback = std::tanh((means[0] - sequenceData[index+1][0])/stds[0]);
+        aback = normalize(sequenceData[index+1][0], means[0], stds[0]);
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
         int sinix = slot + dim + 2*(j-1);
 
-        point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[ip] = normalize(sequenceData[index][j], means[j], stds[j]);
         if(index+1 < (int)sequenceData.size()){
-          afront = std::tanh((means[j] - sequenceData[index+1][j])/stds[j]);
+          afront = normalize(sequenceData[index+1][j], means[j], stds[j]);
 
           double dx = aback - point[ipp];
           double dy = afront - point[ip];
           double hypotenuse = std::sqrt( dy*dy + dx*dx );
-          point[sinix] = dx/hypotenuse;
-          point[sinix+1] = dy/hypotenuse;
+          point[sinix] = hypotenuse > 0 ? dx/hypotenuse : 0.0;
+          point[sinix+1] = hypotenuse > 0 ? dy/hypotenuse : 0.0;
         }
         else{
           int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
@@ -200,7 +205,7 @@ protected:
     }
     else{
       for(int j=0; j<dim; j++){
-        point[j] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[j] = normalize(sequenceData[index][j], means[j], stds[j]);
       }
     }
   }
-- 
2.43.0


From ed931841c03bb2bb0451c4ad38517f3d03460755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 17/41] fix: models without RAM contents can be saved and
 loaded

---
 include/wisardpkg.hpp              | 27 +++++++++++++++------------
 src/common/utils.cc                |  5 +++++
 src/models/wisard/discriminator.cc | 11 +++++------
 src/models/wisard/ramdatahandle.cc | 11 +++++------
 4 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ca3310f..8100e3e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17373,6 +17373,10 @@ long long ipow(long long base, long long exp){
   return result;
 }
 
+inline bool hasSufix(const std::string& value, const std::string& sufix){
+  return value.size() >= sufix.size() && value.compare(value.size()-sufix.size(), sufix.size(), sufix) == 0;
+}
+
 template <typename T>
 std::string convertToBytes(T value)
 {
@@ -17442,6 +17446,7 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
@@ -18115,8 +18120,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -18131,13 +18135,13 @@ private:
       }
     }
     else{
-      int pos=0;
-      unsigned int found = 0;
-      while(found < inputdata.size()){
+      size_t pos = 0;
+      size_t found = 0;
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found != std::string::npos);
     }
   }
 
@@ -18641,8 +18645,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -18662,14 +18665,14 @@ protected:
       }
     }
     else{
-      int pos=0;
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        size_t found = data.find('.',pos);
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
         };
-        pos = found+1;
+        pos = found == std::string::npos ? data.size() : found+1;
         base.merge_patch(rbase);
         rams.push_back(RAM(base));
       }
@@ -18692,7 +18695,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d9433f0..fe0570a 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -43,6 +43,10 @@ long long ipow(long long base, long long exp){
   return result;
 }
 
+inline bool hasSufix(const std::string& value, const std::string& sufix){
+  return value.size() >= sufix.size() && value.compare(value.size()-sufix.size(), sufix.size(), sufix) == 0;
+}
+
 template <typename T>
 std::string convertToBytes(T value)
 {
@@ -112,6 +116,7 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 5d43f06..0e0b914 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -223,8 +223,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -244,14 +243,14 @@ protected:
       }
     }
     else{
-      int pos=0;
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        size_t found = data.find('.',pos);
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
         };
-        pos = found+1;
+        pos = found == std::string::npos ? data.size() : found+1;
         base.merge_patch(rbase);
         rams.push_back(RAM(base));
       }
@@ -274,7 +273,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2a4fc73..30cff49 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -69,8 +69,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -85,13 +84,13 @@ private:
       }
     }
     else{
-      int pos=0;
-      unsigned int found = 0;
-      while(found < inputdata.size()){
+      size_t pos = 0;
+      size_t found = 0;
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found != std::string::npos);
     }
   }
 
-- 
2.43.0


From 80260e9acba0cd92019219e6cdc25c5ccbcbf3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 18/41] fix: the output of jsonConfig can be loaded

---
 include/wisardpkg.hpp              | 4 ++--
 src/models/wisard/discriminator.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8100e3e..4ac12c0 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18428,8 +18428,8 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    count = config["count"].is_null() ? 0 : config["count"].get<int>();
+    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 0e0b914..a59b76a 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -6,8 +6,8 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    count = config["count"].is_null() ? 0 : config["count"].get<int>();
+    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
-- 
2.43.0


From 3085994d2049ab293b049e8f9549aa9e793e9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 19/41] fix: Wisard saves the mapping of the classes it has not
 seen yet

---
 include/wisardpkg.hpp       | 1 +
 src/models/wisard/wisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4ac12c0..0eb03c6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19013,6 +19013,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 787da81..dd99456 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -211,6 +211,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
-- 
2.43.0


From e247034879714570adda942b616e58b301e72652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 20/41] fix: file-backed saves never share a file and report
 what they can not write or read

---
 include/wisardpkg.hpp              | 68 ++++++++++++++++++------------
 src/models/wisard/discriminator.cc | 40 +++++++++++-------
 src/models/wisard/ramdatahandle.cc | 26 +++++++-----
 3 files changed, 81 insertions(+), 53 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0eb03c6..a5f0331 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18107,13 +18107,16 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The file of RAM data can not be written!");
+    }
   }
 
 private:
@@ -18123,16 +18126,15 @@ private:
     if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
-        while(true){
-          if(dataFile.eof()) break;
-
-          std::string rdata="";
-          std::getline(dataFile,rdata,'.');
-          ramdata[ramdata.size()] = dataToRam(rdata);
-        }
-        dataFile.close();
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be read!");
+      }
+      while(dataFile.good()){
+        std::string rdata="";
+        std::getline(dataFile,rdata,'.');
+        ramdata[ramdata.size()] = dataToRam(rdata);
       }
+      dataFile.close();
     }
     else{
       size_t pos = 0;
@@ -18149,7 +18151,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The RAM data is corrupted!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
@@ -18648,21 +18652,24 @@ protected:
     if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
-        for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-          if(dataFile.eof()) break;
-
-          std::string rdata="";
-          std::getline(dataFile,rdata,'.');
-          nl::json base = {
-            {"addresses", *it},
-            {"data", rdata}
-          };
-          base.merge_patch(rbase);
-          rams.push_back(RAM(base));
-        }
-        dataFile.close();
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be read!");
+      }
+      for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
+        if(!dataFile.good()){
+          throw Exception("The file of RAM data is incomplete!");
+        }
+
+        std::string rdata="";
+        std::getline(dataFile,rdata,'.');
+        nl::json base = {
+          {"addresses", *it},
+          {"data", rdata}
+        };
+        base.merge_patch(rbase);
+        rams.push_back(RAM(base));
       }
+      dataFile.close();
     }
     else{
       size_t pos=0;
@@ -18682,15 +18689,22 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename;
+      do{
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }while(std::ifstream(filename).is_open());
+
       std::ofstream dataFile;
-      dataFile.open(filename, std::ios::app);
+      dataFile.open(filename, std::ios::trunc);
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
       }
 
       dataFile.close();
+      if(dataFile.fail()){
+        throw Exception("The file of RAM data can not be written!");
+      }
       data = filename;
     }
     else{
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index a59b76a..b4853ed 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -226,21 +226,24 @@ protected:
     if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
-        for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-          if(dataFile.eof()) break;
-
-          std::string rdata="";
-          std::getline(dataFile,rdata,'.');
-          nl::json base = {
-            {"addresses", *it},
-            {"data", rdata}
-          };
-          base.merge_patch(rbase);
-          rams.push_back(RAM(base));
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be read!");
+      }
+      for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
+        if(!dataFile.good()){
+          throw Exception("The file of RAM data is incomplete!");
         }
-        dataFile.close();
+
+        std::string rdata="";
+        std::getline(dataFile,rdata,'.');
+        nl::json base = {
+          {"addresses", *it},
+          {"data", rdata}
+        };
+        base.merge_patch(rbase);
+        rams.push_back(RAM(base));
       }
+      dataFile.close();
     }
     else{
       size_t pos=0;
@@ -260,15 +263,22 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename;
+      do{
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }while(std::ifstream(filename).is_open());
+
       std::ofstream dataFile;
-      dataFile.open(filename, std::ios::app);
+      dataFile.open(filename, std::ios::trunc);
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
       }
 
       dataFile.close();
+      if(dataFile.fail()){
+        throw Exception("The file of RAM data can not be written!");
+      }
       data = filename;
     }
     else{
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 30cff49..848349d 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -56,13 +56,16 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The file of RAM data can not be written!");
+    }
   }
 
 private:
@@ -72,16 +75,15 @@ private:
     if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
-        while(true){
-          if(dataFile.eof()) break;
-
-          std::string rdata="";
-          std::getline(dataFile,rdata,'.');
-          ramdata[ramdata.size()] = dataToRam(rdata);
-        }
-        dataFile.close();
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be read!");
+      }
+      while(dataFile.good()){
+        std::string rdata="";
+        std::getline(dataFile,rdata,'.');
+        ramdata[ramdata.size()] = dataToRam(rdata);
       }
+      dataFile.close();
     }
     else{
       size_t pos = 0;
@@ -98,7 +100,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The RAM data is corrupted!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
-- 
2.43.0


From 7a8a447ec766b7af0ca3d131384377471af15882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 21/41] fix: file-backed saves of labels that are not valid
 file names

---
 include/wisardpkg.hpp               | 12 ++++++++++--
 src/common/utils.cc                 |  8 ++++++++
 src/models/cluswisard/cluswisard.cc |  2 +-
 src/models/wisard/wisard.cc         |  2 +-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a5f0331..1d7d52f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17377,6 +17377,14 @@ inline bool hasSufix(const std::string& value, const std::string& sufix){
   return value.size() >= sufix.size() && value.compare(value.size()-sufix.size(), sufix.size(), sufix) == 0;
 }
 
+// labels can be any string, but not every character fits in the name of a file
+inline std::string convertToFilename(std::string label){
+  std::replace(label.begin(), label.end(), '/', '_');
+  std::replace(label.begin(), label.end(), '\\', '_');
+  std::replace(label.begin(), label.end(), '\0', '_');
+  return label;
+}
+
 template <typename T>
 std::string convertToBytes(T value)
 {
@@ -19008,7 +19016,7 @@ protected:
   nl::json getClassesJSON(bool huge, std::string path){
     nl::json c;
     for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      c[d->first] = d->second.getJSON(huge,path+(d->first)+"__");
+      c[d->first] = d->second.getJSON(huge,path+convertToFilename(d->first)+"__");
     }
     return c;
   }
@@ -19564,7 +19572,7 @@ protected:
   nl::json getClustersJson(bool huge, std::string path){
     nl::json config;
     for(std::map<std::string,Cluster>::iterator i=clusters.begin(); i!=clusters.end(); ++i){
-      config[i->first] = i->second.getJson(huge,path+(i->first)+"__");
+      config[i->first] = i->second.getJson(huge,path+convertToFilename(i->first)+"__");
     }
     return config;
   }
diff --git a/src/common/utils.cc b/src/common/utils.cc
index fe0570a..53e6a19 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -47,6 +47,14 @@ inline bool hasSufix(const std::string& value, const std::string& sufix){
   return value.size() >= sufix.size() && value.compare(value.size()-sufix.size(), sufix.size(), sufix) == 0;
 }
 
+// labels can be any string, but not every character fits in the name of a file
+inline std::string convertToFilename(std::string label){
+  std::replace(label.begin(), label.end(), '/', '_');
+  std::replace(label.begin(), label.end(), '\\', '_');
+  std::replace(label.begin(), label.end(), '\0', '_');
+  return label;
+}
+
 template <typename T>
 std::string convertToBytes(T value)
 {
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 6f0ed6b..aee90e2 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -291,7 +291,7 @@ protected:
   nl::json getClustersJson(bool huge, std::string path){
     nl::json config;
     for(std::map<std::string,Cluster>::iterator i=clusters.begin(); i!=clusters.end(); ++i){
-      config[i->first] = i->second.getJson(huge,path+(i->first)+"__");
+      config[i->first] = i->second.getJson(huge,path+convertToFilename(i->first)+"__");
     }
     return config;
   }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index dd99456..30bab3e 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -192,7 +192,7 @@ protected:
   nl::json getClassesJSON(bool huge, std::string path){
     nl::json c;
     for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      c[d->first] = d->second.getJSON(huge,path+(d->first)+"__");
+      c[d->first] = d->second.getJSON(huge,path+convertToFilename(d->first)+"__");
     }
     return c;
   }
-- 
2.43.0


From 4c9d5ab0a2100d1a676699faf2be13ff6f7e1512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 22/41] fix: saving a DataSet replaces its file, changes no
 label and works for an empty set

---
 include/wisardpkg.hpp | 15 ++++++++-------
 src/data/dataset.cc   | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1d7d52f..c35bda6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17698,16 +17698,13 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!hasSufix(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
     dataFile.open(filename);
     if(dataFile.is_open()){
-      while(true){
-        if(dataFile.eof()) break;
-
+      while(dataFile.peek() != std::ifstream::traits_type::eof()){
         std::string input="";
         std::getline(dataFile,input,'.');
         int sharp = input.find("#");
@@ -17755,13 +17752,17 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label != labels.end() ? label->second : "") + "#" + data[i].data();
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The file of the data set can not be written!");
+    }
   }
 
 private:
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 6f312e8..801d7ca 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -2,16 +2,13 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!hasSufix(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
     dataFile.open(filename);
     if(dataFile.is_open()){
-      while(true){
-        if(dataFile.eof()) break;
-
+      while(dataFile.peek() != std::ifstream::traits_type::eof()){
         std::string input="";
         std::getline(dataFile,input,'.');
         int sharp = input.find("#");
@@ -59,13 +56,17 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label != labels.end() ? label->second : "") + "#" + data[i].data();
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The file of the data set can not be written!");
+    }
   }
 
 private:
-- 
2.43.0


From 98de4e8f4e4a343f0627589ac742ecb6ad6e9f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 23/41] fix: DataSet rejects indexes outside the set

---
 include/wisardpkg.hpp | 3 +++
 src/data/dataset.cc   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c35bda6..c930d4b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17738,6 +17738,9 @@ public:
   }
 
   const BinInput& get(int index) const {
+    if(index < 0 || index >= (int)data.size()) {
+      throw Exception("Index out of range!");
+    }
     return data[index];
   }
 
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 801d7ca..93c6dfb 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -42,6 +42,9 @@ public:
   }
 
   const BinInput& get(int index) const {
+    if(index < 0 || index >= (int)data.size()) {
+      throw Exception("Index out of range!");
+    }
     return data[index];
   }
 
-- 
2.43.0


From 7287a7944b6d17b0aa1f501567ebee77ce3d8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 24/41] fix: BinInput.set changes only the bit it was given

---
 include/wisardpkg.hpp | 2 +-
 src/data/bininput.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c930d4b..2abb2b4 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17673,7 +17673,7 @@ public:
     }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
-    input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
+    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value & 0x01) << sectionIndex);
   }
 
   index_size_t size() const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 332bc28..14d9230 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -38,7 +38,7 @@ public:
     }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
-    input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
+    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value & 0x01) << sectionIndex);
   }
 
   index_size_t size() const {
-- 
2.43.0


From 03d77a690ba64a1a098ee86cb6f42fccd34c7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 25/41] fix: malformed base64 texts and packed inputs are
 rejected

---
 include/wisardpkg.hpp | 9 +++++++++
 src/common/utils.cc   | 3 +++
 src/data/bininput.cc  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2abb2b4..ab610e7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17455,6 +17455,9 @@ public:
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
     if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The length of a base64 text must be a multiple of 4!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
@@ -17650,8 +17653,14 @@ public:
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
     int s = sizeof(char);
+    if(decodedData.empty()){
+      throw Exception("The data of the input is empty!");
+    }
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())){
+      throw Exception("The data of the input is corrupted!");
+    }
   }
 
   int operator[](index_size_t index) const {
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 53e6a19..4ee1341 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -125,6 +125,9 @@ public:
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
     if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The length of a base64 text must be a multiple of 4!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 14d9230..60c8463 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -15,8 +15,14 @@ public:
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
     int s = sizeof(char);
+    if(decodedData.empty()){
+      throw Exception("The data of the input is empty!");
+    }
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())){
+      throw Exception("The data of the input is corrupted!");
+    }
   }
 
   int operator[](index_size_t index) const {
-- 
2.43.0


From eec9f70182668acd123dfbf97378548ca195c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 26/41] fix: RAMDataHandle reads every address and is not
 changed by reading

---
 include/wisardpkg.hpp              | 26 +++++++++++++++++++-------
 src/models/wisard/ramdatahandle.cc | 26 +++++++++++++++++++-------
 src/wisard_bind.cc                 |  2 +-
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ab610e7..6b5ba36 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18079,16 +18079,19 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    return ramdata[r][addr];
+  int get(int r, addr_t addr){
+    const ram_t& ram = getRam(r);
+    auto it = ram.find(addr);
+    return it == ram.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    return getRam(r);
   }
 
-  void set(int r, int addr, int value){
-    ramdata[r][addr] = value;
+  void set(int r, addr_t addr, int value){
+    if(r == (int)ramdata.size()) ramdata[r] = ram_t();
+    getRam(r)[addr] = value;
   }
 
   bool compare (RAMDataHandle& other){
@@ -18115,9 +18118,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    const ram_t& ram = getRam(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
@@ -18143,6 +18147,14 @@ public:
 private:
   std::unordered_map<int,ram_t> ramdata;
 
+  ram_t& getRam(int r){
+    auto it = ramdata.find(r);
+    if(it == ramdata.end()){
+      throw Exception("Index of RAM out of range!");
+    }
+    return it->second;
+  }
+
   void setData(std::string inputdata){
     if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 848349d..05e6c99 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -7,16 +7,19 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    return ramdata[r][addr];
+  int get(int r, addr_t addr){
+    const ram_t& ram = getRam(r);
+    auto it = ram.find(addr);
+    return it == ram.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    return getRam(r);
   }
 
-  void set(int r, int addr, int value){
-    ramdata[r][addr] = value;
+  void set(int r, addr_t addr, int value){
+    if(r == (int)ramdata.size()) ramdata[r] = ram_t();
+    getRam(r)[addr] = value;
   }
 
   bool compare (RAMDataHandle& other){
@@ -43,9 +46,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    const ram_t& ram = getRam(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
@@ -71,6 +75,14 @@ public:
 private:
   std::unordered_map<int,ram_t> ramdata;
 
+  ram_t& getRam(int r){
+    auto it = ramdata.find(r);
+    if(it == ramdata.end()){
+      throw Exception("Index of RAM out of range!");
+    }
+    return it->second;
+  }
+
   void setData(std::string inputdata){
     if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 564927f..b64e3f4 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -44,7 +44,7 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<RAMDataHandle>(m, "RAMDataHandle")
       .def(py::init<std::string>())
       .def("set", &RAMDataHandle::set)
-      .def("get", (int (RAMDataHandle::*)(int,int)) &RAMDataHandle::get)
+      .def("get", (int (RAMDataHandle::*)(int,addr_t)) &RAMDataHandle::get)
       .def("get", (ram_t (RAMDataHandle::*)(int)) &RAMDataHandle::get)
       .def("data", (std::string (RAMDataHandle::*)()) &RAMDataHandle::data)
       .def("data", (std::string (RAMDataHandle::*)(int)) &RAMDataHandle::data)
-- 
2.43.0


From fd94f18fa72a366ea8834d25161daf8b8a0fc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 27/41] fix: negative values in an entry are rejected

---
 include/wisardpkg.hpp    | 3 +++
 src/models/wisard/ram.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6b5ba36..5b78890 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18446,6 +18446,9 @@ private:
   }
 
   void checkPos(const int code) const{
+    if(code < 0){
+      throw Exception("The input data has a negative value!");
+    }
     if(code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index c68902b..de5ffd8 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -175,6 +175,9 @@ private:
   }
 
   void checkPos(const int code) const{
+    if(code < 0){
+      throw Exception("The input data has a negative value!");
+    }
     if(code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
-- 
2.43.0


From f022efb699d8bcf71eb3c63403f2226921a2d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 28/41] fix: copies of a ClusWisard share their discriminators,
 which are never released

---
 include/wisardpkg.hpp            | 33 ++++++++++++++++----------------
 src/models/cluswisard/cluster.cc | 33 ++++++++++++++++----------------
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5b78890..0722dd2 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19166,7 +19166,8 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      const int index = discriminators.size();
+      discriminators[index] = Discriminator(d);
     }
   }
 
@@ -19205,16 +19206,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -19230,8 +19231,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -19241,7 +19242,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -19252,14 +19253,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -19268,20 +19269,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -19289,7 +19290,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -19302,7 +19303,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8f059ae..eb10409 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -44,7 +44,8 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      const int index = discriminators.size();
+      discriminators[index] = Discriminator(d);
     }
   }
 
@@ -83,16 +84,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -108,8 +109,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -119,7 +120,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -130,14 +131,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -146,20 +147,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -167,7 +168,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -180,7 +181,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
-- 
2.43.0


From e8cdeed36d85408b2ff76cc4d7a63f37ab05f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 29/41] fix: a rejected entry is not learned in part and
 creates no class

---
 include/wisardpkg.hpp               | 78 ++++++++++++++++++++---------
 src/models/cluswisard/cluster.cc    | 29 ++++++-----
 src/models/cluswisard/cluswisard.cc | 15 ++++--
 src/models/wisard/discriminator.cc  |  9 ++++
 src/models/wisard/ram.cc            |  6 +++
 src/models/wisard/wisard.cc         | 19 ++++---
 6 files changed, 106 insertions(+), 50 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0722dd2..2f09041 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18307,6 +18307,12 @@ public:
     train<BinInput>(image);
   }
 
+  // throws when the image can not be addressed by this RAM
+  template<typename T>
+  void check(const T& image) const{
+    getIndex<T>(image);
+  }
+
   void untrain(const std::vector<int>& image){
       addr_t index = getIndex(image);
       auto it = positions.find(index);
@@ -18547,6 +18553,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkEntryValues(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -18785,6 +18792,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkEntryValues(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -18793,6 +18801,13 @@ protected:
 
 private:
 
+  template<typename T>
+  void checkEntryValues(const T& image) const {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].check(image);
+    }
+  }
+
   void checkEntrySize(const int entry) const {
     if(entrySize != entry){
       throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
@@ -19003,10 +19018,15 @@ public:
 protected:
   template<typename T>
   void train(const T& image, const std::string& label){
-    if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+    auto d = discriminators.find(label);
+    if(d != discriminators.end()){
+      d->second.train(image);
+    }
+    else{
+      Discriminator discriminator = makeDiscriminator(label, image.size());
+      discriminator.train(image);
+      discriminators[label] = discriminator;
     }
-    discriminators[label].train(image);
   }
 
   template<typename T>
@@ -19077,19 +19097,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
@@ -19252,20 +19272,22 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  template<typename T>
+  void makeDiscriminator(const int index, const T& image){
+    Discriminator discriminator = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators[index] = discriminator;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(0, image);
       return;
     }
 
     float bestValue = 0.0;
-    bool trained = false;
+    std::vector<Discriminator*> toTrain;
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
@@ -19282,20 +19304,21 @@ private:
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i].train(image);
-        trained = true;
+        toTrain.push_back(&discriminators[i]);
       }
     }
 
-    if(!trained && (int)discriminators.size() < discriminatorsLimit){
+    if(toTrain.empty() && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
-      trained = true;
+      makeDiscriminator(index, image);
+      return;
     }
 
-    if(!trained && bestDiscriminator != NULL){
-      bestDiscriminator->train(image);
+    if(toTrain.empty() && bestDiscriminator != NULL){
+      toTrain.push_back(bestDiscriminator);
+    }
+    for(Discriminator* discriminator : toTrain){
+      discriminator->train(image);
     }
   }
 
@@ -19523,10 +19546,15 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+    auto c = clusters.find(label);
+    if(c != clusters.end()){
+      c->second.train(image);
+    }
+    else{
+      Cluster cluster = makeClusters(image.size());
+      cluster.train(image);
+      clusters[label] = cluster;
     }
-    clusters[label].train(image);
   }
 
   void train(const std::vector<int>& image){
@@ -19594,8 +19622,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeClusters(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index eb10409..47405be 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -130,20 +130,22 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  template<typename T>
+  void makeDiscriminator(const int index, const T& image){
+    Discriminator discriminator = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators[index] = discriminator;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(0, image);
       return;
     }
 
     float bestValue = 0.0;
-    bool trained = false;
+    std::vector<Discriminator*> toTrain;
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
@@ -160,20 +162,21 @@ private:
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i].train(image);
-        trained = true;
+        toTrain.push_back(&discriminators[i]);
       }
     }
 
-    if(!trained && (int)discriminators.size() < discriminatorsLimit){
+    if(toTrain.empty() && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
-      trained = true;
+      makeDiscriminator(index, image);
+      return;
     }
 
-    if(!trained && bestDiscriminator != NULL){
-      bestDiscriminator->train(image);
+    if(toTrain.empty() && bestDiscriminator != NULL){
+      toTrain.push_back(bestDiscriminator);
+    }
+    for(Discriminator* discriminator : toTrain){
+      discriminator->train(image);
     }
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index aee90e2..546eac8 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -213,10 +213,15 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+    auto c = clusters.find(label);
+    if(c != clusters.end()){
+      c->second.train(image);
+    }
+    else{
+      Cluster cluster = makeClusters(image.size());
+      cluster.train(image);
+      clusters[label] = cluster;
     }
-    clusters[label].train(image);
   }
 
   void train(const std::vector<int>& image){
@@ -284,8 +289,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeClusters(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index b4853ed..3da112c 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -85,6 +85,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkEntryValues(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -323,6 +324,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkEntryValues(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -331,6 +333,13 @@ protected:
 
 private:
 
+  template<typename T>
+  void checkEntryValues(const T& image) const {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].check(image);
+    }
+  }
+
   void checkEntrySize(const int entry) const {
     if(entrySize != entry){
       throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index de5ffd8..0305fbe 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -36,6 +36,12 @@ public:
     train<BinInput>(image);
   }
 
+  // throws when the image can not be addressed by this RAM
+  template<typename T>
+  void check(const T& image) const{
+    getIndex<T>(image);
+  }
+
   void untrain(const std::vector<int>& image){
       addr_t index = getIndex(image);
       auto it = positions.find(index);
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 30bab3e..a50e1bc 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -151,10 +151,15 @@ public:
 protected:
   template<typename T>
   void train(const T& image, const std::string& label){
-    if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+    auto d = discriminators.find(label);
+    if(d != discriminators.end()){
+      d->second.train(image);
+    }
+    else{
+      Discriminator discriminator = makeDiscriminator(label, image.size());
+      discriminator.train(image);
+      discriminators[label] = discriminator;
     }
-    discriminators[label].train(image);
   }
 
   template<typename T>
@@ -225,19 +230,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
-- 
2.43.0


From 204968229f2d0586d9acff3b3ab5f46f4e597fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 30/41] fix: the activation degree is relative to the RAMs the
 class really has

---
 src/wrappers/wisardwrapper.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 4a8a32e..0462f65 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -43,13 +43,14 @@ public:
     }
   }
 
-  void setClassifyOutput(py::list& labels, int i, std::string aClass, float numberOfRAMS, std::map<std::string,int>& candidates){
+  void setClassifyOutput(py::list& labels, int i, std::string aClass, std::map<std::string,int>& candidates){
     if(returnConfidence || returnActivationDegree || returnClassesDegrees){
       labels[i] = py::dict(py::arg("class")=aClass);
     }
 
     if(returnActivationDegree){
-      float activationDegree = candidates[aClass]/numberOfRAMS;
+      auto d = discriminators.find(aClass);
+      float activationDegree = d == discriminators.end() ? 0 : candidates[aClass]/(float)d->second.getNumberOfRAMS();
       labels[i]["activationDegree"]=activationDegree;
     }
 
@@ -94,13 +95,13 @@ protected:
     py::list labels(images.size());
     if(images.size() == 0) return labels;
 
-    float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+    calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
       std::string aClass = Bleaching::getBiggestCandidate(candidates);
-      setClassifyOutput(labels, i, aClass, numberOfRAMS, candidates);
+      setClassifyOutput(labels, i, aClass, candidates);
     }
     if(verbose) std::cout << "\r" << std::endl;
     return labels;
-- 
2.43.0


From ccd0bffb87e552c3632212f30386fda89f5c66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 31/41] fix: degrees without an active RAM are zero instead of
 not a number or an extra class

---
 include/wisardpkg.hpp             | 1 +
 src/common/bleaching.cc           | 1 +
 src/wrappers/cluswisardwrapper.cc | 4 ++--
 src/wrappers/wisardwrapper.cc     | 2 +-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2f09041..1b469ce 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17542,6 +17542,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 474ccfc..a3078f7 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -50,6 +50,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 7a69443..13fc523 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -55,12 +55,12 @@ public:
       }
 
       if(returnActivationDegree){
-        float activationDegree = candidates[label]/numberOfRAMS;
+        float activationDegree = candidates.empty() ? 0 : candidates[label]/numberOfRAMS;
         labels[i]["activationDegree"]=activationDegree;
       }
 
       if(returnConfidence){
-        float confidence = Bleaching::getConfidence(candidates, candidates[label]);
+        float confidence = Bleaching::getConfidence(candidates, candidates.empty() ? 0 : candidates[label]);
         labels[i]["confidence"]=confidence;
       }
 
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 0462f65..8ac24d5 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -55,7 +55,7 @@ public:
     }
 
     if(returnConfidence){
-      float confidence = Bleaching::getConfidence(candidates, candidates[aClass]);
+      float confidence = Bleaching::getConfidence(candidates, candidates.empty() ? 0 : candidates[aClass]);
       labels[i]["confidence"]=confidence;
     }
 
-- 
2.43.0


From ee8bfae11d4da9d41684db6f2072b9f86096d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 32/41] fix: saved models with an invalid base or mapping are
 rejected

---
 include/wisardpkg.hpp              | 6 ++++++
 src/models/wisard/discriminator.cc | 3 +++
 src/models/wisard/ram.cc           | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1b469ce..05a1f82 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18442,6 +18442,9 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     addr_t biggestAddress = 0;
     for(int i=0; i<addressSize; i++){
       const addr_t limit = -1;
@@ -18478,6 +18481,9 @@ public:
     count = config["count"].is_null() ? 0 : config["count"].get<int>();
     std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
+    if(!mapping.is_null()){
+      checkMapping(mapping.get<std::vector<std::vector<int>>>(), entrySize);
+    }
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 3da112c..a880b31 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -9,6 +9,9 @@ public:
     count = config["count"].is_null() ? 0 : config["count"].get<int>();
     std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
+    if(!mapping.is_null()){
+      checkMapping(mapping.get<std::vector<std::vector<int>>>(), entrySize);
+    }
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 0305fbe..acf721b 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -170,6 +170,9 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     addr_t biggestAddress = 0;
     for(int i=0; i<addressSize; i++){
       const addr_t limit = -1;
-- 
2.43.0


From 647e8e3e42a6d065b812b28af4e6ab9bef3f927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 33/41] fix: a saved ClusWisard with invalid limits is rejected

---
 include/wisardpkg.hpp               | 1 +
 src/models/cluswisard/cluswisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 05a1f82..258dd6e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19388,6 +19388,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 546eac8..2173532 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -48,6 +48,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
-- 
2.43.0


From 115a7d10d184559e3bdffe8f6cc60e05db183924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 34/41] fix: Discriminator of the Python module accepts
 BinInput

---
 src/wisard_bind.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index b64e3f4..d45e292 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -55,11 +55,11 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<DiscriminatorWrapper>(m, "Discriminator")
       .def(py::init<std::string>())
       .def(py::init<int,int,py::kwargs>())
-      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::train)
+      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const std::vector<std::vector<int>>&)) &DiscriminatorWrapper::train)
-      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::classify)
+      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("jsonConfig",(std::string (DiscriminatorWrapper::*)())  &DiscriminatorWrapper::jsonConfig)
       .def("json", (std::string (DiscriminatorWrapper::*)()) &DiscriminatorWrapper::json)
       .def("json", (std::string (DiscriminatorWrapper::*)(bool)) &DiscriminatorWrapper::json)
-- 
2.43.0


From 405655b747f7f510db301d223d8d42907095122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 35/41] fix: Synthesizer repeats the same entry for a whole
 second

---
 include/wisardpkg.hpp              | 2 +-
 src/synthetic_data/synthesizers.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 258dd6e..5d960c8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17794,7 +17794,7 @@ public:
   std::vector<int> make(){
     std::vector<int> out(cube.size(), 0);
     if(maxData == 0) return out;
-    int index = randint(0, maxData-1);
+    int index = randint(0, maxData-1, false);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index c48a34b..03ac3ad 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -10,7 +10,7 @@ public:
   std::vector<int> make(){
     std::vector<int> out(cube.size(), 0);
     if(maxData == 0) return out;
-    int index = randint(0, maxData-1);
+    int index = randint(0, maxData-1, false);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
-- 
2.43.0


From 15c7b6d5bdfcbb26f79f948d7d98ef9562b7930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 36/41] fix: an error while reading the file of RAM data is
 reported

---
 include/wisardpkg.hpp              | 6 ++++++
 src/models/wisard/discriminator.cc | 3 +++
 src/models/wisard/ramdatahandle.cc | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5d960c8..8f4a01f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18166,6 +18166,9 @@ private:
       while(dataFile.good()){
         std::string rdata="";
         std::getline(dataFile,rdata,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of RAM data can not be read!");
+        }
         ramdata[ramdata.size()] = dataToRam(rdata);
       }
       dataFile.close();
@@ -18712,6 +18715,9 @@ protected:
 
         std::string rdata="";
         std::getline(dataFile,rdata,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of RAM data can not be read!");
+        }
         nl::json base = {
           {"addresses", *it},
           {"data", rdata}
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index a880b31..ba74699 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -240,6 +240,9 @@ protected:
 
         std::string rdata="";
         std::getline(dataFile,rdata,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of RAM data can not be read!");
+        }
         nl::json base = {
           {"addresses", *it},
           {"data", rdata}
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 05e6c99..ccc1792 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -93,6 +93,9 @@ private:
       while(dataFile.good()){
         std::string rdata="";
         std::getline(dataFile,rdata,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of RAM data can not be read!");
+        }
         ramdata[ramdata.size()] = dataToRam(rdata);
       }
       dataFile.close();
-- 
2.43.0


From adbab1d178e5d457eed79dbfa3a9e2a9c8853d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 37/41] fix: DataSet.getLabel takes every index as it is

---
 include/wisardpkg.hpp | 2 +-
 src/data/dataset.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8f4a01f..1f34e22 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17780,7 +17780,7 @@ public:
 
 private:
   std::vector<BinInput> data;
-  std::unordered_map<int,std::string> labels;
+  std::unordered_map<index_size_t,std::string> labels;
 };
 
 
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 93c6dfb..6a9fa35 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -74,5 +74,5 @@ public:
 
 private:
   std::vector<BinInput> data;
-  std::unordered_map<int,std::string> labels;
+  std::unordered_map<index_size_t,std::string> labels;
 };
-- 
2.43.0


From 8513a26d46432f6fe389769b0f3df7a8eac5a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 38/41] fix: a min score or activation degree that is not a
 number is rejected

---
 include/wisardpkg.hpp               | 4 ++--
 src/binarization/kernelcanvas.cc    | 2 +-
 src/models/cluswisard/cluswisard.cc | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1f34e22..e31868d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18062,7 +18062,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
@@ -19613,7 +19613,7 @@ protected:
   }
 
   void checkConfigInputs(const float minScore, const int threshold, const int discriminatorsLimit){
-    if(minScore < 0 || minScore > 1){
+    if(!(minScore >= 0 && minScore <= 1)){
       throw Exception("min score must be between 0 and 1 inclusive!");
     }
     if(threshold < 1){
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 427eadf..5d627d1 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -217,7 +217,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 2173532..12b45f3 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -267,7 +267,7 @@ protected:
   }
 
   void checkConfigInputs(const float minScore, const int threshold, const int discriminatorsLimit){
-    if(minScore < 0 || minScore > 1){
+    if(!(minScore >= 0 && minScore <= 1)){
       throw Exception("min score must be between 0 and 1 inclusive!");
     }
     if(threshold < 1){
-- 
2.43.0


From e28152eee4d01d62d4fe8320a00fe8a20e592a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 39/41] fix: the limit of confidence counts the RAMs that
 indexes give

---
 include/wisardpkg.hpp       | 4 ++--
 src/models/wisard/wisard.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e31868d..8e47a34 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18955,7 +18955,7 @@ public:
 
   void train(const DataSet& dataset) {
     if(dataset.size() > 0){
-      int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
+      int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing && indexes.empty());
       checkConfidence(numberOfRAMS);
     }
     for(size_t i=0; i<dataset.size(); i++){
@@ -18966,7 +18966,7 @@ public:
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
     if(!images.empty()){
-      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing && indexes.empty());
       checkConfidence(numberOfRAMS);
     }
     checkInputSizes(images.size(), labels.size());
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index a50e1bc..a6a6e2b 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -75,7 +75,7 @@ public:
 
   void train(const DataSet& dataset) {
     if(dataset.size() > 0){
-      int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
+      int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing && indexes.empty());
       checkConfidence(numberOfRAMS);
     }
     for(size_t i=0; i<dataset.size(); i++){
@@ -86,7 +86,7 @@ public:
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
     if(!images.empty()){
-      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+      int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing && indexes.empty());
       checkConfidence(numberOfRAMS);
     }
     checkInputSizes(images.size(), labels.size());
-- 
2.43.0


From 178bc704c52ed2a503ce5ee7912a74b1b221ec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 40/41] fix: file-backed saves of labels longer than a file
 name

---
 include/wisardpkg.hpp | 6 ++++++
 src/common/utils.cc   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8e47a34..94f8cfb 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17382,6 +17382,12 @@ inline std::string convertToFilename(std::string label){
   std::replace(label.begin(), label.end(), '/', '_');
   std::replace(label.begin(), label.end(), '\\', '_');
   std::replace(label.begin(), label.end(), '\0', '_');
+  const size_t limit = 100; // a file name may not exceed 255 bytes
+  if(label.size() > limit){
+    size_t end = limit;
+    while(end > 0 && (label[end] & 0xc0) == 0x80) end--; // keep whole utf-8 characters
+    label.resize(end);
+  }
   return label;
 }
 
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 4ee1341..8e24d08 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -52,6 +52,12 @@ inline std::string convertToFilename(std::string label){
   std::replace(label.begin(), label.end(), '/', '_');
   std::replace(label.begin(), label.end(), '\\', '_');
   std::replace(label.begin(), label.end(), '\0', '_');
+  const size_t limit = 100; // a file name may not exceed 255 bytes
+  if(label.size() > limit){
+    size_t end = limit;
+    while(end > 0 && (label[end] & 0xc0) == 0x80) end--; // keep whole utf-8 characters
+    label.resize(end);
+  }
   return label;
 }
 
-- 
2.43.0


From 0c71a06f337fce5825347cfab01e8334401b9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 41/41] fix: a saved cluster refuses entries of another size
 before it makes a discriminator

---
 include/wisardpkg.hpp            | 3 +++
 src/models/cluswisard/cluster.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 94f8cfb..a691c62 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19293,6 +19293,9 @@ private:
 
   template<typename T>
   void makeDiscriminator(const int index, const T& image){
+    if(image.size() != entrySize){
+      throw Exception("The size of the entry is not the same of the cluster!");
+    }
     Discriminator discriminator = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     discriminator.train(image);
     discriminators[index] = discriminator;
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 47405be..2351306 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -132,6 +132,9 @@ private:
 
   template<typename T>
   void makeDiscriminator(const int index, const T& image){
+    if(image.size() != entrySize){
+      throw Exception("The size of the entry is not the same of the cluster!");
+    }
     Discriminator discriminator = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     discriminator.train(image);
     discriminators[index] = discriminator;
-- 
2.43.0

