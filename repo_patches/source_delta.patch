From 2d51428518670bc39079c4cba6a6c55e2ec83c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 01/16] fix: traverse children before parents in hierarchies
 with leaves of different depths

---
 src/lpaggreg/sources/hvalues.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 85c3951..f13be5d 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -20,14 +20,20 @@ void lpaggreg::HValuesMetaData::setPath()
     for (int h=leaveSize; h<hsize; h++){
         children.push_back(vector<int>());
     }
+    vector<int> remaining(hsize, 0);
+    for (int h=0; h<hsize; h++){
+        if (parents[h]!=-1){
+            remaining[parents[h]]++;
+        }
+    }
+    //a node comes after all its children, whatever their depth
     for (int i=0; parents[path[i]]!=-1; i++){
-        if (size.count(parents[path[i]])) {
-            size[parents[path[i]]]+=size[path[i]];
-        }else{
-            path.push_back(parents[path[i]]);
-            size[parents[path[i]]]=size[path[i]];
+        int parent=parents[path[i]];
+        size[parent]+=size[path[i]];
+        children[parent].push_back(path[i]);
+        if (--remaining[parent]==0){
+            path.push_back(parent);
         }
-        children[parents[path[i]]].push_back(path[i]);
     }
     root=path[path.size()-1];
 }
-- 
2.43.0


From 320a72bc5e64ab0eb8b925a7360c196279ac9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 02/16] fix: aggregate the leaves below the part's node at any
 depth

---
 src/lpaggreg/sources/daggregationn.cpp | 21 ++++++++++---------
 src/lpaggreg/sources/haggregationn.cpp | 28 +++++++++++++++-----------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/lpaggreg/sources/daggregationn.cpp b/src/lpaggreg/sources/daggregationn.cpp
index a4bdb6a..3b35b69 100644
--- a/src/lpaggreg/sources/daggregationn.cpp
+++ b/src/lpaggreg/sources/daggregationn.cpp
@@ -10,7 +10,7 @@ void lpaggreg::DAggregateN2::compute()
 {
     sum=0;
     for (int o=part.getStart(); o<=part.getEnd();o++){
-        sum+=subSum(values->getMetaData().getRoot(), o);
+        sum+=subSum(part.getH(), o);
     }
     mean=sum/part.getSize();
 }
@@ -21,8 +21,9 @@ double lpaggreg::DAggregateN2::subSum(int h, int o)
         return (*values)(h, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, o);
     }
     return sum_t;
 }
@@ -48,7 +49,7 @@ void lpaggreg::DAggregateN3::compute()
         sum.push_back(0);
         mean.push_back(0);
         for (int o=part.getStart(); o<=part.getEnd();o++){
-            sum[i]+=subSum(values->getMetaData().getRoot(), i, o);
+            sum[i]+=subSum(part.getH(), i, o);
         }
         mean[i]=sum[i]/part.getSize();
     }
@@ -60,8 +61,9 @@ double lpaggreg::DAggregateN3::subSum(int h, int i, int o)
         return (*values)(h, i, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, o);
     }
     return sum_t;
 }
@@ -90,7 +92,7 @@ void lpaggreg::DAggregateN4::compute()
             sum[i].push_back(0);
             mean[i].push_back(0);
             for (int o=part.getStart(); o<=part.getEnd();o++){
-                sum[i][j]+=subSum(values->getMetaData().getRoot(), i, j, o);
+                sum[i][j]+=subSum(part.getH(), i, j, o);
             }
             mean[i][j]=sum[i][j]/part.getSize();
         }
@@ -103,8 +105,9 @@ double lpaggreg::DAggregateN4::subSum(int h, int i, int j, int o)
         return (*values)(h, i, j, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, o);
     }
     return sum_t;
 }
diff --git a/src/lpaggreg/sources/haggregationn.cpp b/src/lpaggreg/sources/haggregationn.cpp
index 61790b8..d92ff0f 100644
--- a/src/lpaggreg/sources/haggregationn.cpp
+++ b/src/lpaggreg/sources/haggregationn.cpp
@@ -8,7 +8,7 @@ lpaggreg::HAggregateN1::HAggregateN1(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN1::compute()
 {
     sum=0;
-    sum=subSum(values->getMetaData().getRoot());
+    sum=subSum(part.getH());
     mean=sum/part.getSize();
 }
 
@@ -18,8 +18,9 @@ double lpaggreg::HAggregateN1::subSum(int h)
         return (*values)(h);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child);
     }
     return sum_t;
 }
@@ -42,7 +43,7 @@ lpaggreg::HAggregateN2::HAggregateN2(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN2::compute()
 {
     for (int i=0; i<values->getVsize(); i++){
-        sum.push_back(subSum(values->getMetaData().getRoot(), i));
+        sum.push_back(subSum(part.getH(), i));
         mean.push_back(sum[i]/part.getSize());
     }
 }
@@ -53,8 +54,9 @@ double lpaggreg::HAggregateN2::subSum(int h, int i)
         return (*values)(h, i);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i);
     }
     return sum_t;
 }
@@ -80,7 +82,7 @@ void lpaggreg::HAggregateN3::compute()
         sum.push_back(vector<double>());
         mean.push_back(vector<double>());
         for (int j=0; j<values->getJ(); j++){
-            sum[i].push_back(subSum(values->getMetaData().getRoot(), i, j));
+            sum[i].push_back(subSum(part.getH(), i, j));
             mean[i].push_back(sum[i][j]/part.getSize());
         }
     }
@@ -92,8 +94,9 @@ double lpaggreg::HAggregateN3::subSum(int h, int i, int j)
         return (*values)(h, i, j);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j);
     }
     return sum_t;
 }
@@ -122,7 +125,7 @@ void lpaggreg::HAggregateN4::compute()
             sum[i].push_back(vector<double>());
             mean[i].push_back(vector<double>());
             for (int k=0; k<values->getK(); k++){
-                sum[i][j].push_back(subSum(values->getMetaData().getRoot(), i, j, k));
+                sum[i][j].push_back(subSum(part.getH(), i, j, k));
                 mean[i][j].push_back(sum[i][j][k]/part.getSize());
             }
         }
@@ -135,8 +138,9 @@ double lpaggreg::HAggregateN4::subSum(int h, int i, int j, int k)
         return (*values)(h, i, j, k);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, k);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, k);
     }
     return sum_t;
 }
-- 
2.43.0


From ea41c9b92dfbbd71081002c32c4323328f94864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 03/16] fix: normalize every node by the raw quality of the
 root, whatever its index

---
 src/lpaggreg/sources/dqualities.cpp | 4 ++--
 src/lpaggreg/sources/hqualities.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index f7f9031..8506445 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,10 +12,10 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    Quality max=*(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=(*max);
+            *((*((*qualities)[h]))[i])/=max;
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index b0fd4f4..a144126 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -13,9 +13,9 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 
 void lpaggreg::HQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)[metaData.getRoot()];
+    Quality max=*(*qualities)[metaData.getRoot()];
     for (auto quality : *qualities){
-        *quality/=*max;
+        *quality/=max;
     }
 }
 
-- 
2.43.0


From e936b338e0cada5e2297180a84fd300aaeb0bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 04/16] fix: normalize qualities that were supplied without
 values

---
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 8506445..42ececd 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    Quality max=*(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    Quality max=*(*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index e1387c5..5ef5513 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, values->getOsize()-1);
+    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=(*max);
     }
-- 
2.43.0


From d01e467521bb0d06d5965babe1aab7fa76fe28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 05/16] fix: do not divide by zero when normalizing constant or
 single-valued data

---
 src/lpaggreg/sources/dqualities.cpp |  6 ++++++
 src/lpaggreg/sources/hqualities.cpp |  6 ++++++
 src/lpaggreg/sources/oqualities.cpp | 10 ++++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 42ececd..69bf8e4 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -13,6 +13,12 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 void lpaggreg::DQualities::normalize()
 {
     Quality max=*(*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1);
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index a144126..e4df531 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -14,6 +14,12 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 void lpaggreg::HQualities::normalize()
 {
     Quality max=*(*qualities)[metaData.getRoot()];
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (auto quality : *qualities){
         *quality/=max;
     }
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 5ef5513..1205372 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,9 +12,15 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
+    Quality max=*(*qualities)(0, qualities->getSize()-1);
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int i=0; i<qualities->getElements(); i++){
-        (*(*qualities)[i])/=(*max);
+        (*(*qualities)[i])/=max;
     }
 }
 
-- 
2.43.0


From 5ff6a3178bfa79a828ca475b22eeb3bcf0b455e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 06/16] fix: do not report rounding residues as information
 loss of homogeneous data

---
 src/lpaggreg/sources/complexity.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/complexity.cpp b/src/lpaggreg/sources/complexity.cpp
index 57a458d..c6f7d65 100644
--- a/src/lpaggreg/sources/complexity.cpp
+++ b/src/lpaggreg/sources/complexity.cpp
@@ -47,5 +47,10 @@ lp_quality_type  entropyReduction(lp_quality_type  val, lp_quality_type  ent) {
 }
 
 lp_quality_type  divergence(int size, lp_quality_type  value, lp_quality_type  ent) {
-	return (value) * log(size) / ln - entropyReduction(value, ent);
+	lp_quality_type max = value * log(size) / ln;
+	lp_quality_type loss = max - entropyReduction(value, ent);
+	//rounding residue of homogeneous values
+	if (loss < max * LP_PRECISION && -loss < max * LP_PRECISION)
+		return 0;
+	return loss;
 }
-- 
2.43.0


From ad4030855a007b0771d4fee39b2292baae276a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 07/16] fix: search spatiotemporal partitions that are cut
 again before a temporal cut

---
 src/lpaggreg/sources/dpartition.cpp   | 8 ++++----
 src/lpaggreg/sources/dpartitioner.cpp | 5 ++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lpaggreg/sources/dpartition.cpp b/src/lpaggreg/sources/dpartition.cpp
index 4850e9f..6028013 100644
--- a/src/lpaggreg/sources/dpartition.cpp
+++ b/src/lpaggreg/sources/dpartition.cpp
@@ -73,11 +73,11 @@ void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
             int child=metaData.getChildren().operator [](h).operator [](k);
             computeSubPart(child, i, j);
         }
+    }else if (cut<j){
+        computeSubPart(h, i, cut);
+        computeSubPart(h, cut+1, j);
     }else{
-        parts.push_back(DPart(h, (metaData.getSize())[h], i, cut, (*(*qualities)[h])(i, cut)));
-        if (cut<j){
-            computeSubPart(h, cut+1, j);
-        }
+        parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
     }
 }
 
diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 0dd319f..b4b769c 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -69,9 +69,8 @@ shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(fl
                 }
                 for (int cut_t=i; cut_t<j; cut_t++){
                     shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
-                    ((*(tradeoff[h]))(i, cut_t))->set((*((*qualities)[h]))(i, cut_t), parameter);
-                     *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
-                     *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
+                    *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
+                    *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                     if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
                         (*(cuts[h]))(i, j, cut_t);
                         *((*(tradeoff[h]))(i, j))=*tradeoff_t;
-- 
2.43.0


From 4d8d3dee111b5f0ec8030bc5d6632a38122f6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 08/16] fix: stop the sweep at the resolution of the parameter

---
 src/lpaggreg/sources/dpartitioner.cpp | 3 +++
 src/lpaggreg/sources/hpartitioner.cpp | 3 +++
 src/lpaggreg/sources/opartitioner.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index b4b769c..e3df312 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -104,6 +104,9 @@ void lpaggreg::DPartitioner::addBestQualities(float threshold, shared_ptr<DParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<DPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 634c695..3089ffa 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -90,6 +90,9 @@ void lpaggreg::HPartitioner::addBestQualities(float threshold, shared_ptr<HParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<HPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index a111e56..566f126 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -69,6 +69,9 @@ void lpaggreg::OPartitioner::addBestQualities(float threshold, shared_ptr<OParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<OPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
-- 
2.43.0


From 4718c7fe3c28c2fce72f1d10be4c7bf5d6f30d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 09/16] fix: keep the partition of a sweep over a single
 parameter

---
 src/lpaggreg/sources/dpartitioner.cpp | 10 ++++++----
 src/lpaggreg/sources/hpartitioner.cpp | 10 ++++++----
 src/lpaggreg/sources/opartitioner.cpp | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index e3df312..f68eb87 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -21,10 +21,12 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (min!=max){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 3089ffa..010e2a2 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -22,10 +22,12 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (min!=max){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 566f126..0312fea 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -21,10 +21,12 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (min!=max){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
-- 
2.43.0


From a1ea05c22c5ae6ad78365bc7d6dfb3a416a2b964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 10/16] fix: do not use an iterator after erasing its element

---
 src/lpaggreg/sources/dpartitioner.cpp | 2 +-
 src/lpaggreg/sources/hpartitioner.cpp | 2 +-
 src/lpaggreg/sources/opartitioner.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index f68eb87..03366e4 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -31,7 +31,7 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 010e2a2..6856808 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -32,7 +32,7 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 0312fea..59810f0 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -31,7 +31,7 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
-- 
2.43.0


From 9109bbc03d318f681c3dbf017cc508b204e2fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 11/16] fix: optimal parameter undefined for large qualities or
 before a sweep

---
 src/lpaggreg/sources/partitioner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index f4bc9bb..fa89e79 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -39,8 +39,8 @@ map<float, shared_ptr<lpaggreg::Quality> > lpaggreg::Partitioner::getQualityList
 
 float lpaggreg::Partitioner::computePOpt()
 {
-    float popt;
-    lp_quality_type score=RAND_MAX;
+    float popt=0;
+    lp_quality_type score=INFINITY;
     for (float p: pList){
         lp_quality_type gain=(qualityList[p])->getGain();
         lp_quality_type loss=(qualityList[p])->getLoss();
-- 
2.43.0


From 17d094f324bd67c72fb7a1ecb7cad1f73e4a2c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 12/16] fix: out-of-bounds summary of an empty sweep, minimum
 of a partial one

---
 src/lpaggreg/sources/partitioner.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index fa89e79..d318cf2 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -14,9 +14,9 @@ float lpaggreg::Partitioner::getP(int strategy)
 {
     switch(strategy){
     case P_MIN:
-        return 0;
+        return pList.empty()?0:pList[0];
     case P_MAX:
-        return pList[pList.size()-1];
+        return pList.empty()?1:pList[pList.size()-1];
     case P_OPT:
         return computePOpt();
     }
@@ -26,7 +26,7 @@ float lpaggreg::Partitioner::getP(int strategy)
 float lpaggreg::Partitioner::computeAUC()
 {
     float auc=0.0;
-    for (int i=0; i<pList.size()-1; i++){
+    for (int i=0; i+1<pList.size(); i++){
         auc+=((qualityList[pList[i+1]])->getGain()-(qualityList[pList[i]])->getGain())*((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[i]])->getLoss())/2;
     }
     return 1.0-auc;
-- 
2.43.0


From cd4ffd54b6cc11d9b463e6a8774b0dc613ad0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 13/16] fix: compare the losses of two qualities

---
 src/lpaggreg/sources/quality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index 2187cc6..b831e8a 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -89,7 +89,7 @@ bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &qualit
     lp_quality_type precision=std::max(quality1.getGain()+quality2.getGain(),quality1.getLoss()+quality2.getLoss())/2*LP_PRECISION;
     return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
             ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
-            (std::abs(quality1.getGain()-quality2.getGain())<precision));
+            (std::abs(quality1.getLoss()-quality2.getLoss())<precision));
 }
 
 bool lpaggreg::operator!=(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
-- 
2.43.0


From 2a178cf17f52f10e6c1f10c7285a5788fb88f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 14/16] fix: define the declared arithmetic operators of
 trade-offs

---
 src/lpaggreg/sources/tradeoff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 33acb7a..b1399ea 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -84,7 +84,7 @@ void lpaggreg::Tradeoff::operator/=(lpaggreg::Tradeoff &tradeoff)
 }
 
 
-lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -94,7 +94,7 @@ lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()-tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -104,7 +104,7 @@ lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()*tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -114,7 +114,7 @@ lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()/tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
-- 
2.43.0


From 0edbc25d8905365dd658c292d9a0c43f2c473c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 15/16] fix: order trade-offs consistently, so that
 hierarchical partitions are not dominated

---
 src/lpaggreg/sources/tradeoff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index b1399ea..486dcd2 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -154,7 +154,7 @@ bool lpaggreg::operator<=(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tra
 
 bool lpaggreg::operator<(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
-    return !(tradeoff1>tradeoff2||tradeoff1==tradeoff2);
+    return tradeoff2>tradeoff1;
 }
 
 
-- 
2.43.0


From 2bab99407cdeaa6b9fab231d5dfb8b5d646a1879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 16/16] fix: out-of-bounds accesses for a hierarchy reduced to
 a single leaf

---
 src/lpaggreg/sources/dqualities.cpp   | 19 +++++++++++++++----
 src/lpaggreg/sources/hpartitioner.cpp |  4 ++++
 src/lpaggreg/sources/hqualities.cpp   |  4 ++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 69bf8e4..87c1fed 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -51,17 +51,28 @@ void lpaggreg::DQualities::computeQualities()
             for (int i = osize-1; i >=0; i--) {
                 (sum[h])(i,i,(*values)[h][k][i]);
                 (info[h])(i,i,entropyReduction((*values)[h][k][i], 0));
-                (sum[(metaData.getParents())[h]])(i,i,(sum[(metaData.getParents())[h]])(i,i)+(sum[h])(i,i));
-                (info[(metaData.getParents())[h]])(i,i,(info[(metaData.getParents())[h]])(i,i)+(info[h])(i,i));
+                if (h!=metaData.getRoot()){
+                    (sum[(metaData.getParents())[h]])(i,i,(sum[(metaData.getParents())[h]])(i,i)+(sum[h])(i,i));
+                    (info[(metaData.getParents())[h]])(i,i,(info[(metaData.getParents())[h]])(i,i)+(info[h])(i,i));
+                }
                 for (int j = i+1; j < osize; j++) {
                     (sum[h])(i,j,(sum[h])(i+1,j)+(sum[h])(i,i));
                     (info[h])(i,j,(info[h])(i+1,j)+(info[h])(i,i));
                     (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                     (*(*qualities)[h])(i,j)->addToLoss(divergence(j-i+1, (sum[h])(i,j), (info[h])(i,j)));
-                    (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));
-                    (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));
+                    if (h!=metaData.getRoot()){
+                        (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));
+                        (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));
+                    }
                 }
             }
+            if (h==metaData.getRoot()){
+                break;
+            }
+        }
+        //nothing to aggregate above a single leaf
+        if (hsize==1){
+            continue;
         }
         for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
             for (int i = osize-1; i >=0; i--) {
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 6856808..253253e 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -55,6 +55,10 @@ shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(fl
         tradeoffChildren.push_back(shared_ptr<Tradeoff>(new Tradeoff()));
         aggregated.push_back(true);
     }
+    //nothing to aggregate above a single leaf
+    if (hsize==1){
+        return shared_ptr<HPartition>(new HPartition(aggregated, qualities, parameter, metaData));
+    }
     int i=0;
     int h;
     for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index e4df531..44fc263 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -36,6 +36,10 @@ void lpaggreg::HQualities::computeQualities()
     for (int h = 0; h < hsize; h++){
         (*qualities)[h]=shared_ptr<Quality>(new Quality());
     }
+    //nothing to aggregate above a single leaf
+    if (hsize==1){
+        return;
+    }
     for (int k=0; k < vsize; k++){
         int i=0;
         int h;
-- 
2.43.0

