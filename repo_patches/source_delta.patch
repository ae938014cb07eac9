From 6f5f82ad277e997fbb9ef0c670356254e50d60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 01/20] fix: derive the node order correctly for unbalanced
 hierarchies

A grouping node entered the path as soon as one child was visited, so with
leaves at different depths the traversal stopped at the root before deeper
nodes were counted: wrong root, sizes, children and processing order.
A node now enters the path once all its children are in it.
---
 src/lpaggreg/sources/hvalues.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 85c3951..30ecac0 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -20,14 +20,21 @@ void lpaggreg::HValuesMetaData::setPath()
     for (int h=leaveSize; h<hsize; h++){
         children.push_back(vector<int>());
     }
+    //number of children of each node that are not in the path yet
+    vector<int> missing(hsize, 0);
+    for (int h=0; h<hsize; h++){
+        if (parents[h]!=-1){
+            missing[parents[h]]++;
+        }
+    }
+    //a node enters the path only once all its children are in it
     for (int i=0; parents[path[i]]!=-1; i++){
-        if (size.count(parents[path[i]])) {
-            size[parents[path[i]]]+=size[path[i]];
-        }else{
+        size[parents[path[i]]]+=size[path[i]];
+        children[parents[path[i]]].push_back(path[i]);
+        missing[parents[path[i]]]--;
+        if (missing[parents[path[i]]]==0){
             path.push_back(parents[path[i]]);
-            size[parents[path[i]]]=size[path[i]];
         }
-        children[parents[path[i]]].push_back(path[i]);
     }
     root=path[path.size()-1];
 }
-- 
2.43.0


From bf6928580decf9aa9b77d94ecfcfa813f86b5632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 02/20] fix: sum hierarchical aggregates over the part's own
 subtree

The sum started at the root but always iterated over the part's children:
0 for a part that is a leaf, and endless recursion for a part whose children
are not all leaves. It now starts at the part and descends its subtree.
---
 src/lpaggreg/sources/haggregationn.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lpaggreg/sources/haggregationn.cpp b/src/lpaggreg/sources/haggregationn.cpp
index 61790b8..eaa0d9a 100644
--- a/src/lpaggreg/sources/haggregationn.cpp
+++ b/src/lpaggreg/sources/haggregationn.cpp
@@ -8,7 +8,7 @@ lpaggreg::HAggregateN1::HAggregateN1(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN1::compute()
 {
     sum=0;
-    sum=subSum(values->getMetaData().getRoot());
+    sum=subSum(part.getH());
     mean=sum/part.getSize();
 }
 
@@ -18,8 +18,8 @@ double lpaggreg::HAggregateN1::subSum(int h)
         return (*values)(h);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h);
+    for (int child: (values->getMetaData().getChildren())[h]){
+        sum_t+=subSum(child);
     }
     return sum_t;
 }
@@ -42,7 +42,7 @@ lpaggreg::HAggregateN2::HAggregateN2(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN2::compute()
 {
     for (int i=0; i<values->getVsize(); i++){
-        sum.push_back(subSum(values->getMetaData().getRoot(), i));
+        sum.push_back(subSum(part.getH(), i));
         mean.push_back(sum[i]/part.getSize());
     }
 }
@@ -53,8 +53,8 @@ double lpaggreg::HAggregateN2::subSum(int h, int i)
         return (*values)(h, i);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i);
+    for (int child: (values->getMetaData().getChildren())[h]){
+        sum_t+=subSum(child, i);
     }
     return sum_t;
 }
@@ -80,7 +80,7 @@ void lpaggreg::HAggregateN3::compute()
         sum.push_back(vector<double>());
         mean.push_back(vector<double>());
         for (int j=0; j<values->getJ(); j++){
-            sum[i].push_back(subSum(values->getMetaData().getRoot(), i, j));
+            sum[i].push_back(subSum(part.getH(), i, j));
             mean[i].push_back(sum[i][j]/part.getSize());
         }
     }
@@ -92,8 +92,8 @@ double lpaggreg::HAggregateN3::subSum(int h, int i, int j)
         return (*values)(h, i, j);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j);
+    for (int child: (values->getMetaData().getChildren())[h]){
+        sum_t+=subSum(child, i, j);
     }
     return sum_t;
 }
@@ -122,7 +122,7 @@ void lpaggreg::HAggregateN4::compute()
             sum[i].push_back(vector<double>());
             mean[i].push_back(vector<double>());
             for (int k=0; k<values->getK(); k++){
-                sum[i][j].push_back(subSum(values->getMetaData().getRoot(), i, j, k));
+                sum[i][j].push_back(subSum(part.getH(), i, j, k));
                 mean[i][j].push_back(sum[i][j][k]/part.getSize());
             }
         }
@@ -135,8 +135,8 @@ double lpaggreg::HAggregateN4::subSum(int h, int i, int j, int k)
         return (*values)(h, i, j, k);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, k);
+    for (int child: (values->getMetaData().getChildren())[h]){
+        sum_t+=subSum(child, i, j, k);
     }
     return sum_t;
 }
-- 
2.43.0


From 3c79a5fdbb660a5c28276f2339dba7aeaabd10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 03/20] fix: sum spatiotemporal aggregates over the part's own
 subtree

Same defect as in the hierarchical aggregates.
---
 src/lpaggreg/sources/daggregationn.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lpaggreg/sources/daggregationn.cpp b/src/lpaggreg/sources/daggregationn.cpp
index a4bdb6a..7d7dbc6 100644
--- a/src/lpaggreg/sources/daggregationn.cpp
+++ b/src/lpaggreg/sources/daggregationn.cpp
@@ -10,7 +10,7 @@ void lpaggreg::DAggregateN2::compute()
 {
     sum=0;
     for (int o=part.getStart(); o<=part.getEnd();o++){
-        sum+=subSum(values->getMetaData().getRoot(), o);
+        sum+=subSum(part.getH(), o);
     }
     mean=sum/part.getSize();
 }
@@ -21,8 +21,8 @@ double lpaggreg::DAggregateN2::subSum(int h, int o)
         return (*values)(h, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, o);
+    for (int child: (values->getMetaData().getChildren())[h]){
+        sum_t+=subSum(child, o);
     }
     return sum_t;
 }
@@ -48,7 +48,7 @@ void lpaggreg::DAggregateN3::compute()
         sum.push_back(0);
         mean.push_back(0);
         for (int o=part.getStart(); o<=part.getEnd();o++){
-            sum[i]+=subSum(values->getMetaData().getRoot(), i, o);
+            sum[i]+=subSum(part.getH(), i, o);
         }
         mean[i]=sum[i]/part.getSize();
     }
@@ -60,8 +60,8 @@ double lpaggreg::DAggregateN3::subSum(int h, int i, int o)
         return (*values)(h, i, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, o);
+    for (int child: (values->getMetaData().getChildren())[h]){
+        sum_t+=subSum(child, i, o);
     }
     return sum_t;
 }
@@ -90,7 +90,7 @@ void lpaggreg::DAggregateN4::compute()
             sum[i].push_back(0);
             mean[i].push_back(0);
             for (int o=part.getStart(); o<=part.getEnd();o++){
-                sum[i][j]+=subSum(values->getMetaData().getRoot(), i, j, o);
+                sum[i][j]+=subSum(part.getH(), i, j, o);
             }
             mean[i][j]=sum[i][j]/part.getSize();
         }
@@ -103,8 +103,8 @@ double lpaggreg::DAggregateN4::subSum(int h, int i, int j, int o)
         return (*values)(h, i, j, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, o);
+    for (int child: (values->getMetaData().getChildren())[h]){
+        sum_t+=subSum(child, i, j, o);
     }
     return sum_t;
 }
-- 
2.43.0


From e5ca3fe97b2883623854aae29e68798876cf3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 04/20] fix: do not iterate over the children of a destroyed
 temporary

The range-based loops of the aggregates ran over an element of the vector
returned by value by getChildren(), which is destroyed before the loop
starts (heap use after free).
---
 src/lpaggreg/sources/daggregationn.cpp |  9 ++++++---
 src/lpaggreg/sources/haggregationn.cpp | 12 ++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lpaggreg/sources/daggregationn.cpp b/src/lpaggreg/sources/daggregationn.cpp
index 7d7dbc6..3b35b69 100644
--- a/src/lpaggreg/sources/daggregationn.cpp
+++ b/src/lpaggreg/sources/daggregationn.cpp
@@ -21,7 +21,8 @@ double lpaggreg::DAggregateN2::subSum(int h, int o)
         return (*values)(h, o);
     }
     double sum_t=0;
-    for (int child: (values->getMetaData().getChildren())[h]){
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
         sum_t+=subSum(child, o);
     }
     return sum_t;
@@ -60,7 +61,8 @@ double lpaggreg::DAggregateN3::subSum(int h, int i, int o)
         return (*values)(h, i, o);
     }
     double sum_t=0;
-    for (int child: (values->getMetaData().getChildren())[h]){
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
         sum_t+=subSum(child, i, o);
     }
     return sum_t;
@@ -103,7 +105,8 @@ double lpaggreg::DAggregateN4::subSum(int h, int i, int j, int o)
         return (*values)(h, i, j, o);
     }
     double sum_t=0;
-    for (int child: (values->getMetaData().getChildren())[h]){
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
         sum_t+=subSum(child, i, j, o);
     }
     return sum_t;
diff --git a/src/lpaggreg/sources/haggregationn.cpp b/src/lpaggreg/sources/haggregationn.cpp
index eaa0d9a..d92ff0f 100644
--- a/src/lpaggreg/sources/haggregationn.cpp
+++ b/src/lpaggreg/sources/haggregationn.cpp
@@ -18,7 +18,8 @@ double lpaggreg::HAggregateN1::subSum(int h)
         return (*values)(h);
     }
     double sum_t=0;
-    for (int child: (values->getMetaData().getChildren())[h]){
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
         sum_t+=subSum(child);
     }
     return sum_t;
@@ -53,7 +54,8 @@ double lpaggreg::HAggregateN2::subSum(int h, int i)
         return (*values)(h, i);
     }
     double sum_t=0;
-    for (int child: (values->getMetaData().getChildren())[h]){
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
         sum_t+=subSum(child, i);
     }
     return sum_t;
@@ -92,7 +94,8 @@ double lpaggreg::HAggregateN3::subSum(int h, int i, int j)
         return (*values)(h, i, j);
     }
     double sum_t=0;
-    for (int child: (values->getMetaData().getChildren())[h]){
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
         sum_t+=subSum(child, i, j);
     }
     return sum_t;
@@ -135,7 +138,8 @@ double lpaggreg::HAggregateN4::subSum(int h, int i, int j, int k)
         return (*values)(h, i, j, k);
     }
     double sum_t=0;
-    for (int child: (values->getMetaData().getChildren())[h]){
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
         sum_t+=subSum(child, i, j, k);
     }
     return sum_t;
-- 
2.43.0


From b84dc3c886408967c2c7e560466348b8ca16425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 05/20] fix: make spatiotemporal partitions optimal

The interval before a temporal cut was always taken as one aggregated part:
the optimum already found for it was overwritten by its raw quality and the
reading of the cuts did not descend into it. Partitions that are split in
space first and aggregated later in time could not be found, so the result
was not the best partition and depended on the direction of time. Both sides
of a cut now keep and use their own best partition.
---
 src/lpaggreg/sources/dpartition.cpp   | 6 +++---
 src/lpaggreg/sources/dpartitioner.cpp | 1 -
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/dpartition.cpp b/src/lpaggreg/sources/dpartition.cpp
index 4850e9f..477559d 100644
--- a/src/lpaggreg/sources/dpartition.cpp
+++ b/src/lpaggreg/sources/dpartition.cpp
@@ -73,11 +73,11 @@ void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
             int child=metaData.getChildren().operator [](h).operator [](k);
             computeSubPart(child, i, j);
         }
+    }else if (cut<j){
+        computeSubPart(h, i, cut);
+        computeSubPart(h, cut+1, j);
     }else{
         parts.push_back(DPart(h, (metaData.getSize())[h], i, cut, (*(*qualities)[h])(i, cut)));
-        if (cut<j){
-            computeSubPart(h, cut+1, j);
-        }
     }
 }
 
diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 0dd319f..c603a37 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -69,7 +69,6 @@ shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(fl
                 }
                 for (int cut_t=i; cut_t<j; cut_t++){
                     shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
-                    ((*(tradeoff[h]))(i, cut_t))->set((*((*qualities)[h]))(i, cut_t), parameter);
                      *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                      *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                     if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
-- 
2.43.0


From b836a0bd9decd957e1f2b4272d15e15415ad39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 06/20] fix: make the Tradeoff order consistent

operator> breaks ties by gain and loss but operator< did not, so a>b held
without b<a. The hierarchical partitioner, which uses <, kept an aggregate
with the same value but more loss (e.g. at parameter 1), unlike the ordered
and spatiotemporal ones, which use >.
---
 src/lpaggreg/sources/tradeoff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 33acb7a..d9becfd 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -154,7 +154,7 @@ bool lpaggreg::operator<=(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tra
 
 bool lpaggreg::operator<(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
-    return !(tradeoff1>tradeoff2||tradeoff1==tradeoff2);
+    return tradeoff2>tradeoff1;
 }
 
 
-- 
2.43.0


From 0a499d2ece51c63eb10670b4fd8a3e4bb26cc030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 07/20] fix: define the Tradeoff arithmetic operators in their
 namespace

They are declared in namespace lpaggreg but were defined globally: every use
failed to link.
---
 src/lpaggreg/sources/tradeoff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index d9becfd..486dcd2 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -84,7 +84,7 @@ void lpaggreg::Tradeoff::operator/=(lpaggreg::Tradeoff &tradeoff)
 }
 
 
-lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -94,7 +94,7 @@ lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()-tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -104,7 +104,7 @@ lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()*tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -114,7 +114,7 @@ lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()/tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
-- 
2.43.0


From 2ea9e02be2183e27d53df7d0e4a7f61bcfb21343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 08/20] fix: compare the losses too in the equality of
 qualities

The tolerance test compared the gains twice.
---
 src/lpaggreg/sources/quality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index 2187cc6..b831e8a 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -89,7 +89,7 @@ bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &qualit
     lp_quality_type precision=std::max(quality1.getGain()+quality2.getGain(),quality1.getLoss()+quality2.getLoss())/2*LP_PRECISION;
     return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
             ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
-            (std::abs(quality1.getGain()-quality2.getGain())<precision));
+            (std::abs(quality1.getLoss()-quality2.getLoss())<precision));
 }
 
 bool lpaggreg::operator!=(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
-- 
2.43.0


From a90fa30e87b1774eb97808a841bcd50e30f45f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 09/20] fix: normalise every node whatever the number of the
 root

The divisor was the root's own entry, which becomes 1 when the loop reaches
it: nodes numbered after the root were left unnormalised.
---
 src/lpaggreg/sources/dqualities.cpp | 4 ++--
 src/lpaggreg/sources/hqualities.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index f7f9031..a46cd92 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,10 +12,10 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    Quality max=*((*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1));
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=(*max);
+            *((*((*qualities)[h]))[i])/=max;
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index b0fd4f4..76a3033 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -13,9 +13,9 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 
 void lpaggreg::HQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)[metaData.getRoot()];
+    Quality max=*((*qualities)[metaData.getRoot()]);
     for (auto quality : *qualities){
-        *quality/=*max;
+        *quality/=max;
     }
 }
 
-- 
2.43.0


From 63d911a25c47425fad51846aed2cb4ad49c3444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 10/20] fix: normalise quality tables that were supplied by the
 caller

normalize() asked the values for the number of elements, but a table given
to the constructor has no values: null pointer access. The table knows its
own size.
---
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index a46cd92..5f8e6d0 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    Quality max=*((*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1));
+    Quality max=*((*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1));
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index e1387c5..5ef5513 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, values->getOsize()-1);
+    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=(*max);
     }
-- 
2.43.0


From 00ff69ff7a12f5e249a3fdeb4f4c79879e378202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 11/20] fix: normalise data without gain or without loss

When the full aggregation has no gain or no loss (all zeros, a single element,
homogeneous values), normalising divided 0 by 0, or rounding residue by
rounding residue: NaN or arbitrary qualities, and arbitrary partitions.
Such a component is null for every part.
---
 src/lpaggreg/headers/quality.h      | 4 ++++
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/hqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 4 ++--
 src/lpaggreg/sources/quality.cpp    | 6 ++++++
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/headers/quality.h b/src/lpaggreg/headers/quality.h
index b0517e5..2c56f8b 100644
--- a/src/lpaggreg/headers/quality.h
+++ b/src/lpaggreg/headers/quality.h
@@ -47,6 +47,10 @@ namespace lpaggreg{
         /*Add a value to currenlp_quality_type loss*/
         void addToLoss(lp_quality_type loss);
 
+        /*Divide gain and loss by those of the full aggregation. A component
+          which is null (or only rounding residue) there is null everywhere*/
+        void normalize(const Quality &max);
+
         /*Override operators*/
 
         void operator+=(Quality &quality);
diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 5f8e6d0..6686aa2 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -15,7 +15,7 @@ void lpaggreg::DQualities::normalize()
     Quality max=*((*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1));
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=max;
+            ((*((*qualities)[h]))[i])->normalize(max);
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index 76a3033..569b4b9 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -15,7 +15,7 @@ void lpaggreg::HQualities::normalize()
 {
     Quality max=*((*qualities)[metaData.getRoot()]);
     for (auto quality : *qualities){
-        *quality/=max;
+        quality->normalize(max);
     }
 }
 
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 5ef5513..658686d 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,9 +12,9 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
+    Quality max=*((*qualities)(0, qualities->getSize()-1));
     for (int i=0; i<qualities->getElements(); i++){
-        (*(*qualities)[i])/=(*max);
+        ((*qualities)[i])->normalize(max);
     }
 }
 
diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index b831e8a..6741fea 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -40,6 +40,12 @@ void lpaggreg::Quality::addToLoss(lp_quality_type loss)
     this->loss+=loss;
 }
 
+void lpaggreg::Quality::normalize(const lpaggreg::Quality &max)
+{
+    gain=(max.gain>max.loss*LP_PRECISION)?gain/max.gain:0;
+    loss=(max.loss>max.gain*LP_PRECISION)?loss/max.loss:0;
+}
+
 void lpaggreg::Quality::operator+=(lpaggreg::Quality &quality)
 {
     gain+=quality.getGain();
-- 
2.43.0


From 99455f86104609d4f853b1a622ef35a834e99a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 12/20] fix: end the search for best partitions at the
 resolution of float

With a threshold below the distance between two consecutive floats, the
middle of the interval was one of its ends and the recursion never stopped
(stack overflow).
---
 src/lpaggreg/sources/dpartitioner.cpp | 4 ++++
 src/lpaggreg/sources/hpartitioner.cpp | 4 ++++
 src/lpaggreg/sources/opartitioner.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index c603a37..d5f9df0 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -104,6 +104,10 @@ void lpaggreg::DPartitioner::addBestQualities(float threshold, shared_ptr<DParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            //no float in between: the resolution of the parameter is reached
+            return;
+        }
         shared_ptr<DPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 634c695..7f250a3 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -90,6 +90,10 @@ void lpaggreg::HPartitioner::addBestQualities(float threshold, shared_ptr<HParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            //no float in between: the resolution of the parameter is reached
+            return;
+        }
         shared_ptr<HPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index a111e56..8a82492 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -69,6 +69,10 @@ void lpaggreg::OPartitioner::addBestQualities(float threshold, shared_ptr<OParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            //no float in between: the resolution of the parameter is reached
+            return;
+        }
         shared_ptr<OPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
-- 
2.43.0


From f2a30be407719ea17d791f3bf336643b0975333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 13/20] fix: keep a valid iterator when removing repeated
 partitions

erase() invalidates the iterator that was decremented afterwards.
---
 src/lpaggreg/sources/dpartitioner.cpp | 2 +-
 src/lpaggreg/sources/hpartitioner.cpp | 2 +-
 src/lpaggreg/sources/opartitioner.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index d5f9df0..64f6879 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -29,7 +29,7 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 7f250a3..9b5aeae 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -30,7 +30,7 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 8a82492..0b1cfda 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -29,7 +29,7 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
-- 
2.43.0


From c50ade3ade7341aa9e5df7ba65378364fa61664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 14/20] fix: keep the partition of a range reduced to one
 parameter

With min==max the parameter was listed twice, compared with itself and
removed from the map: a listed parameter without partition, and a null
pointer access in getP and computeAUC.
---
 src/lpaggreg/sources/dpartitioner.cpp | 10 ++++++----
 src/lpaggreg/sources/hpartitioner.cpp | 10 ++++++----
 src/lpaggreg/sources/opartitioner.cpp | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 64f6879..863a9a2 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -21,10 +21,12 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (min!=max){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 9b5aeae..05a9701 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -22,10 +22,12 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (min!=max){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 0b1cfda..bedb991 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -21,10 +21,12 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (min!=max){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
-- 
2.43.0


From 9c9c27c0cd308dab19a2757b2844c7e80bef32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 15/20] fix: find the best parameter whatever the magnitude of
 the qualities

The initial score was RAND_MAX: with larger scores (qualities that are not
normalised), or no sweep yet, an uninitialised value was returned.
---
 src/lpaggreg/headers/partitioner.h   | 1 +
 src/lpaggreg/sources/partitioner.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/headers/partitioner.h b/src/lpaggreg/headers/partitioner.h
index a82b5ef..4bc006a 100644
--- a/src/lpaggreg/headers/partitioner.h
+++ b/src/lpaggreg/headers/partitioner.h
@@ -4,6 +4,7 @@
 #include <vector>
 #include <map>
 #include <memory>
+#include <limits>
 #include "lpglobal.h"
 #include "quality.h"
 
diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index f4bc9bb..06ace44 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -39,8 +39,8 @@ map<float, shared_ptr<lpaggreg::Quality> > lpaggreg::Partitioner::getQualityList
 
 float lpaggreg::Partitioner::computePOpt()
 {
-    float popt;
-    lp_quality_type score=RAND_MAX;
+    float popt=0;
+    lp_quality_type score=numeric_limits<lp_quality_type>::infinity();
     for (float p: pList){
         lp_quality_type gain=(qualityList[p])->getGain();
         lp_quality_type loss=(qualityList[p])->getLoss();
-- 
2.43.0


From 52a705f85b296c19a3d28b2e639a04455709a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 16/20] fix: answer getP and computeAUC before any sweep

Both read outside the empty list of parameters.
---
 src/lpaggreg/sources/partitioner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index 06ace44..86a007b 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -16,7 +16,7 @@ float lpaggreg::Partitioner::getP(int strategy)
     case P_MIN:
         return 0;
     case P_MAX:
-        return pList[pList.size()-1];
+        return pList.empty()?0:pList[pList.size()-1];
     case P_OPT:
         return computePOpt();
     }
@@ -26,7 +26,7 @@ float lpaggreg::Partitioner::getP(int strategy)
 float lpaggreg::Partitioner::computeAUC()
 {
     float auc=0.0;
-    for (int i=0; i<pList.size()-1; i++){
+    for (int i=0; i+1<pList.size(); i++){
         auc+=((qualityList[pList[i+1]])->getGain()-(qualityList[pList[i]])->getGain())*((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[i]])->getLoss())/2;
     }
     return 1.0-auc;
-- 
2.43.0


From 0b2d3e168d401bf8dddbf9be3373804f9a290448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 17/20] fix: accept a hierarchy reduced to a single leaf

The leaf loops always added to the parent, which is -1 for the root, and read
one element after the end of the node order.
---
 src/lpaggreg/sources/dqualities.cpp   | 19 ++++++++++++++-----
 src/lpaggreg/sources/hpartitioner.cpp |  4 ++++
 src/lpaggreg/sources/hqualities.cpp   |  4 ++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 6686aa2..af0a714 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -41,22 +41,31 @@ void lpaggreg::DQualities::computeQualities()
             sum.push_back(UpperTriangularMatrix<lp_quality_type>(osize));
             info.push_back(UpperTriangularMatrix<lp_quality_type>(osize));
         }
-        for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
+        for (; i < metaData.getLeaveSize(); i++){
+            h = (metaData.getPath())[i];
             for (int i = osize-1; i >=0; i--) {
                 (sum[h])(i,i,(*values)[h][k][i]);
                 (info[h])(i,i,entropyReduction((*values)[h][k][i], 0));
-                (sum[(metaData.getParents())[h]])(i,i,(sum[(metaData.getParents())[h]])(i,i)+(sum[h])(i,i));
-                (info[(metaData.getParents())[h]])(i,i,(info[(metaData.getParents())[h]])(i,i)+(info[h])(i,i));
+                if (h!=metaData.getRoot()){
+                    (sum[(metaData.getParents())[h]])(i,i,(sum[(metaData.getParents())[h]])(i,i)+(sum[h])(i,i));
+                    (info[(metaData.getParents())[h]])(i,i,(info[(metaData.getParents())[h]])(i,i)+(info[h])(i,i));
+                }
                 for (int j = i+1; j < osize; j++) {
                     (sum[h])(i,j,(sum[h])(i+1,j)+(sum[h])(i,i));
                     (info[h])(i,j,(info[h])(i+1,j)+(info[h])(i,i));
                     (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                     (*(*qualities)[h])(i,j)->addToLoss(divergence(j-i+1, (sum[h])(i,j), (info[h])(i,j)));
-                    (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));
-                    (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));
+                    if (h!=metaData.getRoot()){
+                        (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));
+                        (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));
+                    }
                 }
             }
         }
+        if (metaData.getRoot()<metaData.getLeaveSize()){
+            //the hierarchy is a single leaf: no node above it
+            continue;
+        }
         for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
             for (int i = osize-1; i >=0; i--) {
                 for (int j = i; j < osize; j++) {
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 05a9701..08a67b1 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -55,6 +55,10 @@ shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(fl
         tradeoffChildren.push_back(shared_ptr<Tradeoff>(new Tradeoff()));
         aggregated.push_back(true);
     }
+    if (metaData.getRoot()<metaData.getLeaveSize()){
+        //the hierarchy is a single leaf: only one partition
+        return shared_ptr<HPartition>(new HPartition(aggregated, qualities, parameter, metaData));
+    }
     int i=0;
     int h;
     for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index 569b4b9..8519603 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -30,6 +30,10 @@ void lpaggreg::HQualities::computeQualities()
     for (int h = 0; h < hsize; h++){
         (*qualities)[h]=shared_ptr<Quality>(new Quality());
     }
+    if (metaData.getRoot()<metaData.getLeaveSize()){
+        //the hierarchy is a single leaf: nothing to aggregate
+        return;
+    }
     for (int k=0; k < vsize; k++){
         int i=0;
         int h;
-- 
2.43.0


From 9417550d682752c08b699f92e9420cf2619c3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 18/20] fix: copy the quality when copying a Tradeoff

The default copy shared it: accumulating into a copy (operator+= and the
like) changed the quality, but not the value, of the original.
---
 src/lpaggreg/headers/tradeoff.h   |  3 ++-
 src/lpaggreg/sources/tradeoff.cpp | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lpaggreg/headers/tradeoff.h b/src/lpaggreg/headers/tradeoff.h
index a185438..91f727c 100644
--- a/src/lpaggreg/headers/tradeoff.h
+++ b/src/lpaggreg/headers/tradeoff.h
@@ -18,7 +18,8 @@ namespace lpaggreg{
 
     public:
         Tradeoff();
-        //Tradeoff(Tradeoff &tradeoff);
+        Tradeoff(const Tradeoff &tradeoff);
+        Tradeoff &operator=(const Tradeoff &tradeoff);
         Tradeoff(shared_ptr<Quality> quality);
         Tradeoff(lp_quality_type value, shared_ptr<Quality> quality);
         Tradeoff(shared_ptr<Quality> quality, float p);
diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 486dcd2..9cf5f87 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -36,6 +36,20 @@ lpaggreg::Tradeoff::Tradeoff()
 }*/
 
 
+lpaggreg::Tradeoff::Tradeoff(const lpaggreg::Tradeoff &tradeoff):value(tradeoff.value)
+{
+    this->quality=shared_ptr<Quality>(new Quality(*(tradeoff.quality)));
+}
+
+
+lpaggreg::Tradeoff &lpaggreg::Tradeoff::operator=(const lpaggreg::Tradeoff &tradeoff)
+{
+    this->quality=shared_ptr<Quality>(new Quality(*(tradeoff.quality)));
+    value=tradeoff.value;
+    return *this;
+}
+
+
 lpaggreg::Tradeoff::Tradeoff(lp_quality_type value, shared_ptr<lpaggreg::Quality> quality):value(value)
 {
     this->quality=shared_ptr<Quality>(new Quality(quality->getGain(), quality->getLoss()));
-- 
2.43.0


From 7034ef541c14e10882839a79022ee2aee12f9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 19/20] fix: normalise tables whose full gain or loss is
 negative

---
 src/lpaggreg/sources/quality.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index 6741fea..4a35e1b 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -42,8 +42,8 @@ void lpaggreg::Quality::addToLoss(lp_quality_type loss)
 
 void lpaggreg::Quality::normalize(const lpaggreg::Quality &max)
 {
-    gain=(max.gain>max.loss*LP_PRECISION)?gain/max.gain:0;
-    loss=(max.loss>max.gain*LP_PRECISION)?loss/max.loss:0;
+    gain=(std::abs(max.gain)>std::abs(max.loss)*LP_PRECISION)?gain/max.gain:0;
+    loss=(std::abs(max.loss)>std::abs(max.gain)*LP_PRECISION)?loss/max.loss:0;
 }
 
 void lpaggreg::Quality::operator+=(lpaggreg::Quality &quality)
-- 
2.43.0


From a02a57dfcb21f8d65410905a01271080700d2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:20 +0000
Subject: [PATCH 20/20] fix: let the structure of a hierarchy be derived again

---
 src/lpaggreg/sources/hvalues.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 30ecac0..821df4c 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -12,6 +12,9 @@ lpaggreg::HValuesProxy lpaggreg::HValues::operator[](unsigned int h)
 
 void lpaggreg::HValuesMetaData::setPath()
 {
+    path.clear();
+    children.clear();
+    size.clear();
     for (int h=0; h<leaveSize; h++){
         path.push_back(h);
         children.push_back(vector<int>());
-- 
2.43.0

