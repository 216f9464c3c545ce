From 6b40584c3b099520ffdb336d9475b6b1b477f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 001/193] fix: BoxLookUpTable: reject look-ups one cell past
 the table

The bounds check accepted x == cellSizeX and y == cellSizeY, so a query next
to the far rim read behind the table.
---
 src/tools/BoxLookUpTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 9898a92..f9e2222 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -122,7 +122,7 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     int x = (xp + centerX) / scale;
     int y = (yp + centerY) / scale;
     
-    if(x < 0 || x > cellSizeX || y < 0 || y > cellSizeY)
+    if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
         std::cout << "xp " << xp << " yp " << yp << " x " << x << " y " << y << std::endl; 
         throw std::runtime_error("BoxLookUpTable:: Distance lookup out of bound");
-- 
2.43.0


From 49cb4ce5ce7853f07c3485c996a60c74e690a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 002/193] fix: BoxLookUpTable: compute the distance of narrow
 rim cells

A last row or column narrower than the sampling step got no sample at all and
kept the distance 0, as if it were inside of the box.
---
 src/tools/BoxLookUpTable.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index f9e2222..2408ea8 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -1,5 +1,6 @@
 #include "BoxLookUpTable.hpp"
 #include <math.h>
+#include <algorithm>
 #include <stdexcept>
 #include <iostream>
 #include <iomanip>
@@ -62,14 +63,21 @@ void BoxLookUpTable::computeDistances()
         }
     }
     
-    for(double x = -(sizeXHalf + maxDistFromBox); x < (sizeXHalf + maxDistFromBox); x+= scale / 10.0)
+    //the last sample is clamped to the rim, so that a last cell, that is
+    //narrower than the sampling step, gets its distance as well
+    const double maxX = sizeXHalf + maxDistFromBox;
+    const double maxY = sizeYHalf + maxDistFromBox;
+
+    for(double xs = -maxX; xs < maxX + scale / 10.0; xs+= scale / 10.0)
     {        
+        const double x = std::min(xs, maxX);
         int xi = (x + centerX) / scale;
         if(xi < 0 || xi >= cellSizeX)
             continue;
         
-        for(double y = -(sizeYHalf + maxDistFromBox); y < (sizeYHalf + maxDistFromBox); y+= scale / 10.0)
+        for(double ys = -maxY; ys < maxY + scale / 10.0; ys+= scale / 10.0)
         {
+            const double y = std::min(ys, maxY);
             int yi = (y + centerY) / scale;
 
             if(yi < 0 || yi >= cellSizeY)
-- 
2.43.0


From cf03ed73c6e8aa3a600d1f643687b163d694b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 003/193] fix: RadialLookUpTable: cover the offsets on the
 positive rim

The table held 2 * radius entries per line, centered at radius, so the offset
+radius was looked up in the next line, or behind the table.
---
 src/tools/RadialLookUpTable.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/RadialLookUpTable.cpp b/src/tools/RadialLookUpTable.cpp
index 8a2e28b..36c093c 100644
--- a/src/tools/RadialLookUpTable.cpp
+++ b/src/tools/RadialLookUpTable.cpp
@@ -15,8 +15,9 @@ void RadialLookUpTable::recompute(double scale, double maxRadius)
     
     this->maxRadius = maxRadius;
     this->scale = scale;
-    numElementsPerLine = maxRadius / scale * 2;
-    numElementsPerLineHalf = maxRadius / scale;
+    //the table has to contain the offsets -half to half (inclusive)
+    numElementsPerLineHalf = ceil(maxRadius / scale);
+    numElementsPerLine = numElementsPerLineHalf * 2 + 1;
 
     computeAngles();
     computeDistances();
-- 
2.43.0


From 462618cc092d31ea567cdc367786b2ce072c2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 004/193] fix: ListGrid: initialize the memory pool in the copy
 constructor

The assignment, which the copy constructor delegates to, deletes the current
pool first, and got an uninitialized pointer.
---
 src/tools/ListGrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index c22e879..8d9ed9a 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -77,6 +77,7 @@ public:
     }
 
     ListGrid( const ListGrid<C>& other )
+	: mem_pool(NULL)
     {
 	// use the assignment operator
 	this->operator=( other );
-- 
2.43.0


From 687f72713d2bb0b05f2625e98918801192accbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 005/193] fix: ListGrid: keep erase working after move

The first item of a moved cell still referred to the cell it came from, so
erasing it left the freed item in its new cell and unhooked a foreign one.
---
 src/tools/ListGrid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index 8d9ed9a..23c9045 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -163,6 +163,9 @@ public:
                 else
                 {
                     cells[newX][newY] = tmp[x][y];
+                    //the first item refers to the cell it hangs on
+                    if(cells[newX][newY])
+                        cells[newX][newY]->pthis = &cells[newX][newY];
                 }
             }
         }        
-- 
2.43.0


From b35693e723ff0e0e492eeb5d27ca8c25bf9edd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:06 +0000
Subject: [PATCH 006/193] fix: Gaussian: divide by the square root of the
 covariance determinant

The normalization factor of the density was inverted, so eval() did not
integrate to one and wider components got the larger responsibilities.
---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index 5fce0bc..c785184 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -59,7 +59,7 @@ template <class _Scalar, int _Dimension, class _Adapter = EigenAdapter<_Scalar,
 	Eigen::Matrix<Scalar,1,1> e = d.transpose() * cov.inverse() * d;
 	Scalar res = 
 	    pow( 2.0 * M_PI, -Dimension/2.0 )
-	    * sqrt( cov.determinant() )
+	    / sqrt( cov.determinant() )
 	    * exp( -0.5 * e[0] );
 
 	return res;
-- 
2.43.0


From 346a0f4c4dd25e1d3e1e0066448d085ff89ff1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:06 +0000
Subject: [PATCH 007/193] fix: GaussianMixture: weigh the components in eval()

The density of the mixture was the plain sum of its components' densities.
---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index c785184..014200f 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -117,7 +117,7 @@ public:
     {
 	Scalar v = 0;
 	for( size_t j=0; j<params.size(); j++ )
-	    v += params[j].dist.eval( s );
+	    v += params[j].weight * params[j].dist.eval( s );
 
 	return v;
     }
-- 
2.43.0


From ddfcd2c3f0e16b879bc79d515e70df3609592334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:36 +0000
Subject: [PATCH 008/193] fix: KMeans: leave out classes without samples

A class that lost all its samples (or has only samples of zero weight) got the
mean 0/0, which went into the search tree, and came back as a NaN cluster that
made expectation maximization drop every component.
---
 src/tools/ExpectationMaximization.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 1f6a77f..34aa19a 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -95,6 +95,10 @@ public:
 	kdtree.clear();
 	for( size_t j=0; j<numClasses; j++ )
 	{
+	    // a class that lost all its samples has no mean
+	    if( !(sum[j] > 0) )
+		continue;
+
 	    means[j] /= sum[j];
 	    kdtree.insert( Sample( j, means[j]) );
 	}
@@ -127,10 +131,13 @@ public:
 	for( size_t i=0; i<samples.size(); i++ )
 	    stats[index[i]].insert( samples[i], hasWeights ? weights[i] : 1.0 );
 
-	// and calc mean and covariance
-	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res( means.size() );
+	// and calc mean and covariance of the classes that have samples
+	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res;
 	for( size_t j=0; j<means.size(); j++ )
-	    res[j] = stats[j].update();
+	{
+	    if( stats[j].sum > 0 )
+		res.push_back( stats[j].update() );
+	}
 	return res;
     }
 };
-- 
2.43.0


From 2cad9257bdf62ba75448811801bab39a327aedf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:36 +0000
Subject: [PATCH 009/193] fix: KMeans: reset the class assignment in
 initialize()

When the object is used again, the assignment of the previous run was kept. If
the first association happened to repeat it, run() stopped before the means
were calculated once.
---
 src/tools/ExpectationMaximization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 34aa19a..95ee554 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -62,7 +62,7 @@ public:
 
 	// create index which stores class assignment for each 
 	// sample. assign evenly in the beginning
-	index.resize( s.size(), 0 );
+	index.assign( s.size(), 0 );
 
 	// initialize the means kdtree and array
 	kdtree.clear();
-- 
2.43.0


From 87d06caf420625bd7b7acb206c4ac30b9e3dbc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:36 +0000
Subject: [PATCH 010/193] fix: ExpectationMaximization: weigh the samples in
 the log-likelihood

The likelihood a step returns, which decides when run() stops, ignored the
weights of the samples, so it was not the quantity the steps increase.
---
 src/tools/ExpectationMaximization.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 95ee554..bf99911 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -245,15 +245,16 @@ public:
 		gamma(i,j) = val;
 		sum += val;
 	    }
-	    loglhood += log( sum );
-	    gamma.row(i) *= (weighted ? weights[i] : 1.0) / sum;
+	    const Scalar weight = weighted ? weights[i] : 1.0;
+	    loglhood += weight * log( sum );
+	    gamma.row(i) *= weight / sum;
 	}
-	loglhood /= n;
+	const Scalar sum_weights = weighted ? std::accumulate( weights.begin(), weights.end(), 0.0 ) : n;
+	loglhood /= sum_weights;
 
 	const Scalar remove_threshold = 1e-4;
 	std::vector<size_t> remove;
 	// update the parameters of the gaussians
-	Scalar sum_weights = weighted ? std::accumulate( weights.begin(), weights.end(), 0.0 ) : n;
 	for( size_t j = 0; j < k; j++ )
 	{
 	    Scalar n_j = gamma.col(j).sum();
-- 
2.43.0


From 7975b141a416fe69a5ffba7d200d7ed8b31a9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 011/193] fix: ExpectationMaximization: survive degenerate
 components

A component with a singular covariance (e.g. a cluster of one sample) has the
density NaN, and a sample far from all components has the density 0. Both made
the responsibilities NaN for all components, and thereby removed all of them.
Give such components no share, so that only they are removed, and keep the
weights of the remaining ones normalized.
---
 src/tools/ExpectationMaximization.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index bf99911..c4afc3b 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -242,12 +242,23 @@ public:
 	    {
 		typename GMM::Parameter &param( gmm.params[j] );
 		Scalar val = param.weight * param.dist.eval( samples[i] );
+		// a degenerate component (singular covariance) has no density
+		if( !std::isfinite( val ) )
+		    val = 0;
 		gamma(i,j) = val;
 		sum += val;
 	    }
+	    // a sample no component explains can't be assigned to any
+	    if( !(sum > 0) )
+	    {
+		gamma.row(i).setZero();
+		continue;
+	    }
 	    const Scalar weight = weighted ? weights[i] : 1.0;
 	    loglhood += weight * log( sum );
-	    gamma.row(i) *= weight / sum;
+	    // the sum may be too small to be inverted
+	    gamma.row(i) /= sum;
+	    gamma.row(i) *= weight;
 	}
 	const Scalar sum_weights = weighted ? std::accumulate( weights.begin(), weights.end(), 0.0 ) : n;
 	loglhood /= sum_weights;
@@ -282,6 +293,8 @@ public:
 	{
 	    gmm.params.erase( gmm.params.begin() + *it );
 	}
+	// removed components and unexplained samples leave the sum below 1
+	gmm.normalize();
 
 	return loglhood;
     }
-- 
2.43.0


From 654f133351a5a792b2c27e2a5a214c462265557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:21 +0000
Subject: [PATCH 012/193] fix: Holder: throw on access with the wrong type

get() dereferenced the NULL pointer of the failed cast, and the const version
did not compile when used, because it cast the constness away.
---
 src/core/Holder.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 9f77c5e..0ca6c4b 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -2,6 +2,7 @@
 #define ENVIRE_HOLDER__
 
 #include <boost/noncopyable.hpp>
+#include <typeinfo>
 
 namespace envire
 {
@@ -64,13 +65,14 @@ namespace envire
     }
     template <typename T> T& HolderBase::get()
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        // throws std::bad_cast if the held object is of another type
+        return *dynamic_cast< Holder<T>& >(*this).getData();
     }
 
     template <typename T> 
     const T& HolderBase::get() const
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        return *dynamic_cast< Holder<T> const& >(*this).getData();
     }
 }
 
-- 
2.43.0


From 3b963a409b81355e30b0a456e35562434608d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 013/193] fix: EnvironmentItem: copy the label

---
 src/core/Environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 88e88c8..2971410 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -36,12 +36,13 @@ EnvironmentItem::EnvironmentItem(Environment* envPtr)
 }
 
 EnvironmentItem::EnvironmentItem(const EnvironmentItem& item)
-    : ref_count(0), unique_id( Environment::ITEM_NOT_ATTACHED ), env(NULL)
+    : ref_count(0), unique_id( Environment::ITEM_NOT_ATTACHED ), label( item.label ), env(NULL)
 {
 }
 
 EnvironmentItem& EnvironmentItem::operator=(const EnvironmentItem& other)
 {
+    label = other.label;
     return *this;
 }
 
-- 
2.43.0


From b53c201fd59a37874e66b94047dbed072b5268f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 014/193] fix: Environment: keep an item alive while it changes
 its environment

---
 src/core/Environment.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 2971410..38f3c8b 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -287,17 +287,18 @@ void Environment::attachItem(EnvironmentItem* item)
             item->unique_id = candidate;
         }
     }
-    else if( item->getEnvironment() != this )
-    {
-	// if it comes from a different environment, it
-	// needs to be detached first
-	item->detach();
-    }
 
     // make sure item not already present
     if( items.count(item->getUniqueId()) ) {
 	throw runtime_error("unique_id of item already in environment. " + item->getUniqueId() );
     }
+
+    // if it comes from a different environment, it needs to be detached first.
+    // That environment may hold the only reference to it.
+    EnvironmentItem::Ptr detached;
+    if( item->isAttached() )
+	detached = item->detach();
+
     // add item to internal list
     items[item->getUniqueId()] = item;
    
-- 
2.43.0


From ca90258a4403452068174a8e1e3dd10fefa73897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:08 +0000
Subject: [PATCH 015/193] fix: Environment: find present relations among
 several

---
 src/core/Environment.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 38f3c8b..8d5bf9b 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -19,6 +19,19 @@
 using namespace std;
 using namespace envire;
 
+// true if the multimap holds the given relation
+template <class T>
+static bool hasRelation(const T& map, typename T::key_type key, typename T::mapped_type value)
+{
+    std::pair<typename T::const_iterator, typename T::const_iterator> range = map.equal_range( key );
+    for( typename T::const_iterator it = range.first; it != range.second; ++it )
+    {
+	if( it->second == value )
+	    return true;
+    }
+    return false;
+}
+
 const std::string EnvironmentItem::className = "envire::EnvironmentItem";
 
 void envire::intrusive_ptr_add_ref( EnvironmentItem* item ) { item->ref_count++; }
@@ -430,8 +443,7 @@ void Environment::addChild(Layer* parent, Layer* child)
     assert( parent != child );
 
     // don't do anything if relationsship already present
-    layerTreeType::iterator it = layerTree.find( child );
-    if( it != layerTree.end() && it->second == parent )
+    if( hasRelation( layerTree, child, parent ) )
 	return;
     
     if( !child->isAttached() )
@@ -611,8 +623,7 @@ std::list<CartesianMap*> Environment::getMaps(FrameNode* node)
 bool Environment::addInput(Operator* op, Layer* input)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphInput.find( op );
-    if( it != operatorGraphInput.end() && it->second == input )
+    if( hasRelation( operatorGraphInput, op, input ) )
 	return false;
     
     if( !op->isAttached() )
@@ -629,8 +640,7 @@ bool Environment::addInput(Operator* op, Layer* input)
 bool Environment::addOutput(Operator* op, Layer* output)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphOutput.find( op );
-    if( it != operatorGraphOutput.end() && it->second == output )
+    if( hasRelation( operatorGraphOutput, op, output ) )
 	return false;
 
     if( !op->isAttached() )
-- 
2.43.0


From fe031fc586d46b8110552eb11e9695970c390c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:01 +0000
Subject: [PATCH 016/193] fix: Layer: leave the generating operator in
 detachFromOperator

---
 src/core/Layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bf55d6..5bcf6f0 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -101,7 +101,7 @@ bool Layer::isDirty() const
 bool Layer::detachFromOperator()
 {
     if( isGenerated() ) 
-	return env->removeInput( getGenerator(), this );
+	return env->removeOutput( getGenerator(), this );
 
     return true;
 }
-- 
2.43.0


From eb8b1705c1872298f55dfb25c493bc1470bd1fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:01 +0000
Subject: [PATCH 017/193] fix: Layer: reset the dirty flag in
 updateFromOperator

---
 src/core/Layer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bcf6f0..4f96c7b 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -120,7 +120,10 @@ Operator* Layer::getGenerator() const
 void Layer::updateFromOperator() 
 {
     if( isGenerated() && isDirty() )
+    {
         getGenerator()->updateAll();
+        resetDirty();
+    }
 }
 
 const std::string Layer::getMapFileName() const 
-- 
2.43.0


From 8e03bdf748d96c354978557adba122e296cc0c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 018/193] fix: Map: transform the extents of 2D maps in their
 plane

---
 src/Core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core.hpp b/src/Core.hpp
index 8c4dd45..89f4e23 100644
--- a/src/Core.hpp
+++ b/src/Core.hpp
@@ -128,7 +128,7 @@ namespace envire
 	    // go through all the permutations to get the corners
 	    for( int i=0; i<pow(2,DIMENSION); i++ )
 	    {
-		Eigen::Vector3d corner;
+		Eigen::Vector3d corner = Eigen::Vector3d::Zero();
 		for( int j=0; j<DIMENSION; j++ )
 		    corner[j] = (i>>j)&1 ? pc_extents.min()[j] : pc_extents.max()[j];
 		corners.push_back( corner );
-- 
2.43.0


From 0d8eb8b927b62bb1e186e46442d5fbe6f6b27842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 019/193] fix: TransformWithUncertainty: sign of the second
 order term in drx_by_dr

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 5d4f73b..930a7c3 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -126,7 +126,7 @@ Eigen::Matrix<double,3,3> drx_by_dr( const Eigen::Quaterniond& q, const Eigen::V
     const double theta = r.norm();
     const double alpha = 1.0 - theta*theta/6.0;
     const double beta = 0.5 - theta*theta/24.0;
-    const double gamma = 1.0 / 3.0 - theta*theta/30.0;
+    const double gamma = -1.0 / 3.0 + theta*theta/30.0;
     const double delta = -1.0 / 12.0 + theta*theta/180.0;
 
     return Eigen::Matrix3d(
-- 
2.43.0


From 9324e94da166d24a2d346522da57072ca6977526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 020/193] fix: TransformWithUncertainty: signs in the Jacobian
 of the inverse

---
 src/core/Transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 930a7c3..0d2d2ed 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -278,8 +278,8 @@ TransformWithUncertainty TransformWithUncertainty::inverse() const
     Eigen::Quaterniond q( getTransform().linear() );
     Eigen::Vector3d t( getTransform().translation() );
     Eigen::Matrix<double,6,6> J;
-    J << Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
-	drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
+    J << -Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
+	drx_by_dr( q.inverse(), t ), -q.toRotationMatrix().transpose();
 
     return TransformWithUncertainty(
 	    Eigen::Affine3d( getTransform().inverse( Eigen::Isometry ) ),
-- 
2.43.0


From 4814d424c112824304829090b335aa52402adf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 021/193] fix: Environment: report the removal of present layer
 relations only

---
 src/core/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 8d5bf9b..7b175c7 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -473,14 +473,14 @@ void Environment::removeChild(FrameNode* parent, FrameNode* child)
 
 void Environment::removeChild(Layer* parent, Layer* child) 
 {
-    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
-
     typedef layerTreeType::iterator iterator;
     std::pair<iterator,iterator> range = layerTree.equal_range( child );
     for( iterator it = range.first; it != range.second; it++ )
     {
 	if( it->second == parent )
 	{
+	    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
+
 	    layerTree.erase( it );
 	    return;
 	}
-- 
2.43.0


From bc0f9d34b5d2f8f3b660cd2a6ab5674e8e680341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 022/193] fix: Environment: publish all relations to new event
 handlers

---
 src/core/Environment.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 7b175c7..1f755a3 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -200,8 +200,19 @@ void Environment::addEventHandler(EventHandler *handler)
     //set root node
     handler->receive( Event( event::ROOT, event::ADD, getRootNode() ) );
     
-    //iterate over frame tree
-    publishChilds(handler, getRootNode());    
+    //iterate over frame trees, also those that are not below the root node
+    std::vector<FrameNode*> frames = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = frames.begin(); it != frames.end(); it++) 
+    {
+	if( !getParent(*it) )
+	    publishChilds(handler, *it);
+    }
+
+    //publish connections between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++) 
+    {
+	handler->receive( Event( event::LAYER_TREE, event::ADD, it->second, it->first ) );
+    }
 
     //publish connections between maps and Framenodes
     for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
-- 
2.43.0


From 30cc7fcb57ad926e2f82e1c6704ca07879ff5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 023/193] fix: Environment: report the removal of all relations
 to removed event handlers

---
 src/core/Environment.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 1f755a3..42224a8 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -235,22 +235,32 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 	    detachChilds(*it, evl);   
 	}
 	
-	std::list<CartesianMap*> maplist = getMaps(*it);
-	
-	//now it is a leaf, detach all maps attached to framenode
-	for(std::list<CartesianMap*>::iterator mapit = maplist.begin(); mapit != maplist.end(); mapit++) {
-	    evl->receive( Event( event::FRAMENODE, event::REMOVE, *mapit, *it ) );
-	}
-	
-	//and remove the leaf
+	//now it is a leaf, remove it
 	evl->receive( Event( event::FRAMENODE_TREE, event::REMOVE, parent, *it ) );
     }    
 };
 
 void Environment::removeEventHandler(EventHandler *handler) 
 {
-    //reverse iterate over the frame node tree and detach all children    
-    detachChilds(getRootNode(), handler);
+    //detach all layers from each other
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++) 
+    {
+	handler->receive( Event( event::LAYER_TREE, event::REMOVE, it->second, it->first ) );
+    }
+
+    //detach all maps from their framenodes
+    for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
+    {
+	handler->receive( Event( event::FRAMENODE, event::REMOVE, it->first, it->second ) );
+    }
+
+    //reverse iterate over the frame node trees and detach all children    
+    std::vector<FrameNode*> frames = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = frames.begin(); it != frames.end(); it++) 
+    {
+	if( !getParent(*it) )
+	    detachChilds(*it, handler);
+    }
     
     //remove root node
     handler->receive( Event( event::ROOT, event::REMOVE, getRootNode() ) );
-- 
2.43.0


From 0f8156db9b254428358e98f810128d2d64b0b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:08 +0000
Subject: [PATCH 024/193] fix: Event: keep what replaces removed items and
 relations in the queue

---
 src/core/Event.cpp        | 6 +++---
 src/core/EventHandler.cpp | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index e12e565..2565ce0 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -63,9 +63,9 @@ event::Result Event::merge( const Event& other )
     if(type == other.type && operation == other.operation && id_a == other.id_a && id_b == other.id_b) 
 	return event::INVALIDATE;
 
-    // adding and removing will cancel each other, if the events are otherwise the same
-    if( ((operation == event::REMOVE && other.operation == event::ADD)
-        || (operation == event::ADD && other.operation == event::REMOVE))
+    // removing will cancel an earlier adding, if the events are otherwise the same.
+    // The opposite is not true, since the subject might have changed in between
+    if( (operation == event::REMOVE && other.operation == event::ADD)
 	&& type == other.type && id_a == other.id_a && id_b == other.id_b )
 	return event::CANCEL;
 
diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index b78edbb..26d738a 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -81,11 +81,17 @@ void EventQueue::handle( const Event& message )
     event.ref( m_async );
 
     bool valid = true;
+    bool replaces = false;
     while( it != msgQueue.end() )
     {
 	event::Result res = 
 	    event.merge( *it );
 
+	// an event which replaces an earlier one of the same kind
+	// needs to stay in the queue in any case
+	if( res == event::INVALIDATE && it->operation == event.operation )
+	    replaces = true;
+
 	// either cancel or invalidate make the old event
 	// obsolete
 	if( res == event::CANCEL || res == event::INVALIDATE )
@@ -100,7 +106,7 @@ void EventQueue::handle( const Event& message )
 	    valid = false;
     }
 
-    if( valid )
+    if( valid || replaces )
     {
 	msgQueue.push_back( event );
     }
-- 
2.43.0


From 10d3bc39b39d06ea4ec0d12da399df91d68f5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:08 +0000
Subject: [PATCH 025/193] fix: Event: report the modification of present items
 only

---
 src/core/Event.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index 2565ce0..b1177d5 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -131,6 +131,8 @@ struct ApplyEventHelper : public EventDispatcher
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
 	    item->set( event.a.get() );
+
+	    env.itemModified( item );
 	}
 	else if( lenient )
 	{
@@ -142,8 +144,6 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    throw std::runtime_error("Event could not be applied. Item does not exist in environment.");
 	}
-	
-	env.itemModified( item );
     }
 
     void itemDetached(EnvironmentItem *item)
-- 
2.43.0


From 25a38cefc69770aca3e904ecad9bece3ad66f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:29 +0000
Subject: [PATCH 026/193] fix: SerializationFactory: strip namespaces from
 qualified class names only

---
 src/core/SerializationFactory.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/SerializationFactory.cpp b/src/core/SerializationFactory.cpp
index 178e317..ec98335 100644
--- a/src/core/SerializationFactory.cpp
+++ b/src/core/SerializationFactory.cpp
@@ -27,9 +27,14 @@ EnvironmentItem* SerializationFactory::createObject( const std::string& classNam
 	f = classMap[className];
     else 
     {
-	std::string name = className.substr( className.rfind("::") + 2 );
-	if( classMap.count( name ) )
-	    f = classMap[name];
+	// fall back to the unqualified name
+	const size_t pos = className.rfind("::");
+	if( pos != std::string::npos )
+	{
+	    std::string name = className.substr( pos + 2 );
+	    if( classMap.count( name ) )
+		f = classMap[name];
+	}
     }
 
     if( !f )
-- 
2.43.0


From 45ce27d092aba6a7c27fbcd00e751e585d53cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:09 +0000
Subject: [PATCH 027/193] fix: Serialization: check presence and size of
 matrices before reading them

---
 src/core/Serialization.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 7b73884..ba4fe5e 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -241,9 +241,12 @@ bool Serialization::read(const std::string& key, Transform &value)
     int node_index = yamlSerialization->findNodeInMap( key );
     yaml_node_t* node = yamlSerialization->getNode( node_index );
     
-    if( node->type != YAML_SEQUENCE_NODE )
+    if( !node || node->type != YAML_SEQUENCE_NODE )
         throw std::runtime_error("can't read TransformType");
 
+    if( node->data.sequence.items.top - node->data.sequence.items.start != value.matrix().rows() * value.matrix().cols() )
+       throw std::runtime_error("matrix dimension incompatible");       
+
     int i=0;
     for(yaml_node_item_t* item=node->data.sequence.items.start;
             item < node->data.sequence.items.top; item++)
@@ -254,9 +257,6 @@ bool Serialization::read(const std::string& key, Transform &value)
             boost::lexical_cast<Transform::Scalar>( t );
         i++;
     }
-   
-    if( i != value.matrix().rows() * value.matrix().cols() )
-       throw std::runtime_error("matrix dimension incompatible");       
 
     return true;
 }
@@ -266,9 +266,12 @@ bool Serialization::read(const std::string& key, TransformWithUncertainty::Covar
     int node_index = yamlSerialization->findNodeInMap( key );
     yaml_node_t* node = yamlSerialization->getNode( node_index );
     
-    if( node->type != YAML_SEQUENCE_NODE )
+    if( !node || node->type != YAML_SEQUENCE_NODE )
         throw std::runtime_error("can't read TransformType");
 
+    if( node->data.sequence.items.top - node->data.sequence.items.start != value.rows() * value.cols() )
+       throw std::runtime_error("matrix dimension incompatible");       
+
     int i=0;
     for(yaml_node_item_t* item=node->data.sequence.items.start;
             item < node->data.sequence.items.top; item++)
@@ -279,9 +282,6 @@ bool Serialization::read(const std::string& key, TransformWithUncertainty::Covar
             boost::lexical_cast<Transform::Scalar>( t );
         i++;
     }
-   
-    if( i != value.rows() * value.cols() )
-       throw std::runtime_error("matrix dimension incompatible");       
 
     return true;
 }
-- 
2.43.0


From 8bbe0a69eec2dc312f642c1b706df8ed06b4442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 028/193] fix: Serialization: keep zero characters in scalars

---
 src/core/Serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index ba4fe5e..992e96f 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -152,7 +152,7 @@ std::string YAMLSerializationImpl::getScalar( int node_index )
 
     if( node && node->type == YAML_SCALAR_NODE )
     {
-        return std::string( reinterpret_cast<const char*>(node->data.scalar.value) );
+        return std::string( reinterpret_cast<const char*>(node->data.scalar.value), node->data.scalar.length );
     }
     throw std::runtime_error("not a scalar node");
 }
-- 
2.43.0


From dc41f49edc5df4d6e5436ba532596f68b1b4be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 029/193] fix: BinarySerialization: write properties of any
 size

---
 src/core/Serialization.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 992e96f..9c9197e 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -756,6 +756,14 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     return item;
 }
 
+/** yaml write handler, which appends to a vector of bytes */
+static int appendToVector(void *data, unsigned char *buffer, size_t size)
+{
+    std::vector<uint8_t> *v = reinterpret_cast<std::vector<uint8_t>*>(data);
+    v->insert(v->end(), buffer, buffer + size);
+    return 1;
+}
+
 bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBinaryEvent& bin_item)
 {
     assert(item);
@@ -767,10 +775,7 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // config yaml
     yaml_emitter_initialize(&yamlSerialization->emitter);
-    bin_item.yamlProperties.resize(10000,0);
-    size_t size_written = 0;
-    yaml_emitter_set_output_string(&yamlSerialization->emitter, reinterpret_cast<unsigned char*>(bin_item.yamlProperties.data()),
-                                   bin_item.yamlProperties.size(), &size_written);
+    yaml_emitter_set_output(&yamlSerialization->emitter, &appendToVector, &bin_item.yamlProperties);
     
     // build up document
     if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
@@ -790,7 +795,6 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // write yaml document to yaml stream
     int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
-    bin_item.yamlProperties.resize(size_written,0);
     
     // fill binary streams
     for(std::map<std::string, std::stringstream*>::iterator it = stringstreams.begin(); it != stringstreams.end(); it++)
-- 
2.43.0


From 7901d982d5875b6048abfb816109a78a0cd874da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 030/193] fix: Serialization: reject yaml nodes of unexpected
 type

---
 src/core/Serialization.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 9c9197e..f8c880d 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -120,7 +120,8 @@ int YAMLSerializationImpl::findNodeInMap( int map_index, const std::string &key
 {
     yaml_node_t *map = getNode( map_index );
 
-    assert( map->type == YAML_MAPPING_NODE );
+    if( !map || map->type != YAML_MAPPING_NODE )
+        throw std::runtime_error("not a mapping node");
 
     int node = 0;
 
@@ -718,6 +719,8 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     // set up yaml node
     yamlSerialization->current_node = -1;
     yaml_node_t* root = yaml_document_get_root_node(&yamlSerialization->document);
+    if( !root || root->type != YAML_SEQUENCE_NODE )
+        throw std::runtime_error("no items in yaml stream.");
     for(yaml_node_item_t* item=root->data.sequence.items.start;
             item < root->data.sequence.items.top; item++)
     {
-- 
2.43.0


From ca241092c24a17cdd3cdabd5d9d45715d44544d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 031/193] fix: BinarySerialization: drop the streams of earlier
 events

---
 src/core/Serialization.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index f8c880d..a1b7a9b 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -657,13 +657,15 @@ BinarySerialization::BinarySerialization()
 
 BinarySerialization::~BinarySerialization()
 {
+    cleanUp();
 }
 
 std::istream& BinarySerialization::getBinaryInputStream(const std::string &filename)
 {
-    if(stringstreams[filename] == 0)
+    std::map<std::string, std::stringstream*>::iterator it = stringstreams.find(filename);
+    if(it == stringstreams.end())
         throw NoSuchBinaryStream("there is no binary input stream called " + filename);
-    return *stringstreams[filename];
+    return *it->second;
 }
 
 std::ostream& BinarySerialization::getBinaryOutputStream(const std::string &filename)
@@ -702,6 +704,9 @@ void BinarySerialization::applyEvent(envire::Environment* env, const EnvireBinar
 
 EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryEvent& bin_item)
 {
+    // an exception might have left streams of an earlier event
+    cleanUp();
+
     // set up yaml document
     yaml_parser_initialize(&yamlSerialization->parser);
     
@@ -775,6 +780,7 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     bin_item.yamlProperties.clear();
     bin_item.binaryStreamNames.clear();
     bin_item.binaryStreams.clear();
+    cleanUp();
     
     // config yaml
     yaml_emitter_initialize(&yamlSerialization->emitter);
-- 
2.43.0


From eb14a6f85659d548748c450015c5149e221e53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 032/193] fix: Serialization: report the parser problem before
 deleting the parser

---
 src/core/Serialization.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index a1b7a9b..af577ac 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -509,12 +509,12 @@ Environment* FileSerialization::readFromFile( const std::string& path )
     if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
     {
 	// doubled the cleanup code... not nice.
-	yaml_parser_delete(&yamlSerialization->parser);
-	fclose(input);
-
 	std::cerr << path << ":" 
 	    << yamlSerialization->parser.problem_mark.line << ":"
 	    << yamlSerialization->parser.problem;
+
+	yaml_parser_delete(&yamlSerialization->parser);
+	fclose(input);
 	throw std::runtime_error("error parsing yaml stream.");
     }
 
@@ -713,11 +713,11 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     yaml_parser_set_input_string(&yamlSerialization->parser, reinterpret_cast<const unsigned char*>(bin_item.yamlProperties.data()), bin_item.yamlProperties.size());
     if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
     {
-        yaml_parser_delete(&yamlSerialization->parser);
-
         std::cerr << bin_item.className << " " << bin_item.id_a << ":" 
             << yamlSerialization->parser.problem_mark.line << ":"
             << yamlSerialization->parser.problem;
+
+        yaml_parser_delete(&yamlSerialization->parser);
         throw std::runtime_error("error parsing yaml stream.");
     }
     
-- 
2.43.0


From eabdc2eea130f9c49a5903e2e0ddccfd821ff27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:12 +0000
Subject: [PATCH 033/193] fix: FileSerialization: report scenes that cannot be
 opened

---
 src/core/Serialization.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index af577ac..d51819d 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -499,6 +499,9 @@ Environment* FileSerialization::readFromFile( const std::string& path )
     int64_t lastID = 0;
 
     FILE *input = fopen(path.c_str(), "rb");
+    if( !input )
+	throw runtime_error("envire: could not open " + path + " for reading");
+
     yaml_parser_initialize(&yamlSerialization->parser);
     yaml_parser_set_input_file(&yamlSerialization->parser, input);
 
-- 
2.43.0


From cf9ecab4c0b157f58c8edb6908f33593aea45153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:20 +0000
Subject: [PATCH 034/193] fix: FileSerialization: keep a root node for scenes
 without one

---
 src/core/Serialization.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index d51819d..d6b4235 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -529,8 +529,7 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 	// create a new environment
 	env = new Environment();
 	// and remove the root node
-	EnvironmentItem* rootNode = env->getRootNode();
-	env->detachItem( rootNode );
+	EnvironmentItem::Ptr rootNode = env->detachItem( env->getRootNode() );
 
 	// browse root mapping for object or links	
 	for(yaml_node_pair_t* pair=root->data.mapping.pairs.start;
@@ -562,7 +561,8 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 			//hack to preserve root node
 			if(envItem->getUniqueId() == "0" || envItem->getUniqueId() == "/0") {
 			    env->rootNode = dynamic_cast<FrameNode *>(envItem);
-			    assert(env->rootNode);
+			    if( !env->rootNode )
+				throw std::runtime_error("root node is not a framenode.");
 			}
 			
                         std::string currentID = envItem->getUniqueIdSuffix();
@@ -620,6 +620,9 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 	    }
 	}
 
+	// the scene has no root node, so keep the one of the environment
+	if( env->rootNode == rootNode.get() )
+	    env->attachItem( rootNode.get() );
     }
     else 
     {
-- 
2.43.0


From f95ca90b8c59347c010331775740593258554887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:58 +0000
Subject: [PATCH 035/193] fix: Serialization: free the items of scenes that
 cannot be read

---
 src/core/Serialization.cpp | 34 +++++++++++++++++-----------------
 src/core/Serialization.hpp |  5 +++--
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index d6b4235..aa092ed 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -494,7 +494,7 @@ static MapType* getMap(YAMLSerializationImpl* yaml, Environment* env, const char
 
 Environment* FileSerialization::readFromFile( const std::string& path )
 {
-    Environment* env;
+    std::unique_ptr<Environment> env;
     
     int64_t lastID = 0;
 
@@ -527,7 +527,7 @@ Environment* FileSerialization::readFromFile( const std::string& path )
     if( root && root->type == YAML_MAPPING_NODE )
     {
 	// create a new environment
-	env = new Environment();
+	env.reset( new Environment() );
 	// and remove the root node
 	EnvironmentItem::Ptr rootNode = env->detachItem( env->getRootNode() );
 
@@ -554,13 +554,13 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 			yamlSerialization->current_node = *item;
 
 			// create item and attach to environment
-			EnvironmentItem* envItem = 
-			    SerializationFactory::createObject(className, *this);
+			EnvironmentItem::Ptr envItem(
+			    SerializationFactory::createObject(className, *this));
 
-			env->attachItem( envItem );
+			env->attachItem( envItem.get() );
 			//hack to preserve root node
 			if(envItem->getUniqueId() == "0" || envItem->getUniqueId() == "/0") {
-			    env->rootNode = dynamic_cast<FrameNode *>(envItem);
+			    env->rootNode = dynamic_cast<FrameNode *>(envItem.get());
 			    if( !env->rootNode )
 				throw std::runtime_error("root node is not a framenode.");
 			}
@@ -584,36 +584,36 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "frameNodeTree" )
 			{
 			    env->frameNodeTree.insert( make_pair( 
-					getMap<FrameNode>(yamlSerialization, env, "child"), 
-					getMap<FrameNode>(yamlSerialization, env, "parent") ) );
+					getMap<FrameNode>(yamlSerialization, env.get(), "child"), 
+					getMap<FrameNode>(yamlSerialization, env.get(), "parent") ) );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "layerTree" )
 			{
 			    env->layerTree.insert( make_pair( 
-                                        getMap<Layer>(yamlSerialization, env, "child"),
-                                        getMap<Layer>(yamlSerialization, env, "parent") ));
+                                        getMap<Layer>(yamlSerialization, env.get(), "child"),
+                                        getMap<Layer>(yamlSerialization, env.get(), "parent") ));
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "operatorGraphInput" )
 			{
 			    env->operatorGraphInput.insert( make_pair( 
-                                        getMap<Operator>(yamlSerialization, env, "operator"),
-                                        getMap<Layer>(yamlSerialization, env, "layer")) );
+                                        getMap<Operator>(yamlSerialization, env.get(), "operator"),
+                                        getMap<Layer>(yamlSerialization, env.get(), "layer")) );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "operatorGraphOutput" )
 			{
 			    env->operatorGraphOutput.insert( make_pair( 
-                                        getMap<Operator>(yamlSerialization, env, "operator"),
-                                        getMap<Layer>(yamlSerialization, env, "layer")) );
+                                        getMap<Operator>(yamlSerialization, env.get(), "operator"),
+                                        getMap<Layer>(yamlSerialization, env.get(), "layer")) );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "cartesianMapGraph" )
 			{
 			    env->cartesianMapGraph.insert( make_pair( 
-                                        getMap<CartesianMap>(yamlSerialization, env, "map"),
-                                        getMap<FrameNode>(yamlSerialization, env, "node")) );
+                                        getMap<CartesianMap>(yamlSerialization, env.get(), "map"),
+                                        getMap<FrameNode>(yamlSerialization, env.get(), "node")) );
 			}
 		    }
 		}
@@ -651,7 +651,7 @@ Environment* FileSerialization::readFromFile( const std::string& path )
         ifstreams.clear();
     }
 
-    return env;
+    return env.release();
 }
 
 
diff --git a/src/core/Serialization.hpp b/src/core/Serialization.hpp
index d1f056c..bafcabe 100644
--- a/src/core/Serialization.hpp
+++ b/src/core/Serialization.hpp
@@ -4,6 +4,7 @@
 
 #include <vector>
 #include <string>
+#include <memory>
 #include <sstream>
 #include <boost/lexical_cast.hpp>
 
@@ -19,9 +20,9 @@ namespace envire
     
     template<class T> EnvironmentItem* createItem(Serialization &so) 
     {
-        T* o = new T();
+        std::unique_ptr<T> o( new T() );
         o->unserialize(so);
-        return o;
+        return o.release();
     }
     
     /* Generic implementation for registering new types in the serialization
-- 
2.43.0


From 0f20bd132df942fee7b67ba537632890b1c0b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 036/193] fix: Event: exchange items which change their class

---
 src/core/Event.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index b1177d5..9cd88d5 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -108,14 +108,28 @@ struct ApplyEventHelper : public EventDispatcher
 
     ApplyEventHelper( const Event& event, Environment& env ) : event( event ), env( env ), lenient( true ) {}
 
+    /** overwrite an existing item with the one from the event */
+    void overwrite(EnvironmentItem *item)
+    {
+	if( item->getClassName() != event.a->getClassName() && item != env.getRootNode() )
+	{
+	    // an item of a different class can not be copied, so exchange it
+	    env.detachItem( item );
+	    env.attachItem( event.a.get() );
+	}
+	else
+	{
+	    item->set( event.a.get() );
+	    env.itemModified( item );
+	}
+    }
+
     void itemAttached(EnvironmentItem *item)
     {
 	if( item && (lenient || item == env.getRootNode()) )
 	{
 	    // item already exists, but we can just overwrite it
-	    item->set( event.a.get() );
-
-	    env.itemModified( item );
+	    overwrite( item );
 	}
 	else
 	{
@@ -130,9 +144,7 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
-	    item->set( event.a.get() );
-
-	    env.itemModified( item );
+	    overwrite( item );
 	}
 	else if( lenient )
 	{
-- 
2.43.0


From 7a4617c942e24c3405bada76b3599e19e1eaca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:00 +0000
Subject: [PATCH 037/193] fix: EventDispatcher: check the types of the items of
 relations

---
 src/core/EventHandler.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index 26d738a..a93888e 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -53,21 +53,21 @@ void EventDispatcher::dispatch( event::Type type, event::Operation operation, En
     else if( type == event::ITEM && operation == event::UPDATE )
 	disp->itemModified( a );
     else if( type == event::FRAMENODE_TREE && operation == event::ADD )
-	disp->childAdded( static_cast<FrameNode*>(a), static_cast<FrameNode*>(b) );
+	disp->childAdded( dynamic_cast<FrameNode*>(a), dynamic_cast<FrameNode*>(b) );
     else if( type == event::FRAMENODE_TREE && operation == event::REMOVE )
-	disp->childRemoved( static_cast<FrameNode*>(a), static_cast<FrameNode*>(b) );
+	disp->childRemoved( dynamic_cast<FrameNode*>(a), dynamic_cast<FrameNode*>(b) );
     else if( type == event::LAYER_TREE && operation == event::ADD )
-	disp->childAdded( static_cast<Layer*>(a), static_cast<Layer*>(b) );
+	disp->childAdded( dynamic_cast<Layer*>(a), dynamic_cast<Layer*>(b) );
     else if( type == event::LAYER_TREE && operation == event::REMOVE )
-	disp->childRemoved( static_cast<Layer*>(a), static_cast<Layer*>(b) );
+	disp->childRemoved( dynamic_cast<Layer*>(a), dynamic_cast<Layer*>(b) );
     else if( type == event::FRAMENODE && operation == event::ADD )
-	disp->frameNodeSet( static_cast<CartesianMap*>(a), static_cast<FrameNode*>(b) );
+	disp->frameNodeSet( dynamic_cast<CartesianMap*>(a), dynamic_cast<FrameNode*>(b) );
     else if( type == event::FRAMENODE && operation == event::REMOVE )
-	disp->frameNodeDetached( static_cast<CartesianMap*>(a), static_cast<FrameNode*>(b) );
+	disp->frameNodeDetached( dynamic_cast<CartesianMap*>(a), dynamic_cast<FrameNode*>(b) );
     else if( type == event::ROOT && operation == event::ADD )
-	disp->setRootNode( static_cast<FrameNode*>(a) );
+	disp->setRootNode( dynamic_cast<FrameNode*>(a) );
     else if( type == event::ROOT && operation == event::REMOVE )
-	disp->removeRootNode( static_cast<FrameNode*>(a) );
+	disp->removeRootNode( dynamic_cast<FrameNode*>(a) );
     else 
 	throw std::runtime_error("Event message not handled");
 }
-- 
2.43.0


From edfbdf2842dd839c7289b7dc21dbea616cd9f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 038/193] fix: GridBase::toGrid accepted points too far away
 for a cell index

---
 src/maps/GridBase.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 72d6a2d..c466197 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -391,8 +391,10 @@ bool GridBase::toGrid( Eigen::Vector3d const& point,
 
 bool GridBase::toGrid(double x, double y, size_t& xi, size_t& yi, double& xmod, double& ymod) const
 {
-    size_t am = floor((x-offsetx)/scalex);
-    size_t an = floor((y-offsety)/scaley);
+    // compare before converting to an index, since a value which does not fit
+    // into size_t has no defined conversion
+    const double am = floor((x-offsetx)/scalex);
+    const double an = floor((y-offsety)/scaley);
 
     if( 0 <= am && am < cellSizeX && 0 <= an && an < cellSizeY )
     {
@@ -415,10 +417,10 @@ bool GridBase::toGrid( double x, double y, size_t& xi, size_t& yi) const
 
 bool envire::GridBase::toGridTimesX(double x, double y, size_t& xi, size_t& yi, int multiplier) const
 {
-    size_t am = floor(((x-offsetx)/scalex)*multiplier);
-    size_t an = floor(((y-offsety)/scaley)*multiplier);
+    const double am = floor(((x-offsetx)/scalex)*multiplier);
+    const double an = floor(((y-offsety)/scaley)*multiplier);
 
-    if((am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
+    if((0 <= am) && (0 <= an) && (am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
     {
         xi = am;
         yi = an;
-- 
2.43.0


From 5729bbca0e03458402e65af239bd7feb56a307dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 039/193] fix: grid extents were one cell too large

---
 src/maps/GridBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index c466197..b5e27e9 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -493,7 +493,9 @@ GridBase::Extents GridBase::getExtents() const
 
 GridBase::CellExtents GridBase::getCellExtents() const
 {
-    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) );
+    // the extents are the first and last cell, getExtents() adds the size of
+    // the last one
+    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) - Eigen::Vector2i::Ones() );
 }
 
 template<typename T>
-- 
2.43.0


From c95c18dd79d95c4960d40df55330d28d94b3ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 040/193] fix: isCellAlignedWith truncated instead of rounding
 and ignored rotations

---
 src/maps/GridBase.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index b5e27e9..aeb6fea 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -603,16 +603,21 @@ bool GridBase::isCellAlignedWith(GridBase const& grid) const
         getScaleY() != grid.getScaleY() )
 	return false;
 
-    // see if the difference of the world position of the 0 grid cells is a
-    // multiple of the cell scale
-    Eigen::Vector3d rootDiff = 
-	fromGrid( 0, 0, getEnvironment()->getRootNode() )
-	 -grid.fromGrid( 0, 0, grid.getEnvironment()->getRootNode() );
-    Eigen::Vector3d cellDiff = 
-	(rootDiff.array() * Eigen::Array3d( 1.0/getScaleX(), 1.0/getScaleY(), 0 )).matrix();
-
-    if( !(cellDiff.cast<int>().cast<double>() - cellDiff).isZero() )
-	return false;
+    // the corner cells of this grid have to be displaced by the same whole
+    // number of cells in the other grid
+    FrameNode const* frame = grid.getFrameNode();
+    const size_t corners[3][2] = { {0, 0}, {cellSizeX, 0}, {0, cellSizeY} };
+    Eigen::Array2d shift;
+    for( int i=0; i<3; i++ )
+    {
+	Eigen::Vector3d diff = fromGrid( corners[i][0], corners[i][1], frame )
+	    - grid.fromGrid( corners[i][0], corners[i][1] );
+	Eigen::Array2d cellDiff( diff.x() / getScaleX(), diff.y() / getScaleY() );
+	if( i == 0 )
+	    shift = Eigen::Array2d( rint( cellDiff.x() ), rint( cellDiff.y() ) );
+	if( ((cellDiff - shift).abs() > 1e-3).any() )
+	    return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 15ad1858194f7a0ad37ff2b6da5714a6a9471c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 041/193] fix: isAlignedWith compared world coordinates with
 cell counts

---
 src/maps/GridBase.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index aeb6fea..b35efa4 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -625,18 +625,20 @@ bool GridBase::isCellAlignedWith(GridBase const& grid) const
 bool GridBase::isAlignedWith(GridBase const& grid) const
 {
     if (getCellSizeX() != grid.getCellSizeX() ||
-        getCellSizeY() != grid.getCellSizeY() ||
-        getOffsetX() != grid.getOffsetX() ||
-        getOffsetY() != grid.getOffsetY())
+        getCellSizeY() != grid.getCellSizeY())
         return false;
 
-    Transform tf = getEnvironment()->relativeTransform(this, &grid);
-    base::Vector3d p(grid.getCellSizeX(), grid.getCellSizeY(), 0);
-    p = tf * p;
-    if (rint(p.x()) != grid.getCellSizeX() ||
-            rint(p.y()) != grid.getCellSizeY())
-        return false;
+    // the misalignment is largest at one of the corner cells
+    FrameNode const* frame = grid.getFrameNode();
+    const size_t corners[4][2] = { {0, 0}, {cellSizeX, 0}, {0, cellSizeY}, {cellSizeX, cellSizeY} };
+    for (int i = 0; i < 4; i++)
+    {
+        Eigen::Vector3d diff = fromGrid(corners[i][0], corners[i][1], frame)
+            - grid.fromGrid(corners[i][0], corners[i][1]);
+        if (fabs(diff.x()) >= 0.5 * grid.getScaleX() ||
+                fabs(diff.y()) >= 0.5 * grid.getScaleY())
+            return false;
+    }
 
     return true;
 }
-
-- 
2.43.0


From ab033ce60b4e889e9c4d57160c9dc22ff0d377c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:25 +0000
Subject: [PATCH 042/193] fix: forEachInRectangles used the rows and sides of
 the inner rectangle for both

---
 src/maps/GridBase.cpp | 71 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index b35efa4..8989245 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -113,6 +113,34 @@ bool envire::GridBase::getRectPoints(const base::Pose2D &pose, double sizeX, dou
 }
 
 
+/** Computes the points of the left and the right side of a rectangle, both from
+ * the top to the bottom point
+ */
+static void getRectSides(const GridBase::Position &upLeft, const GridBase::Position &upRight, const GridBase::Position &downLeft, const GridBase::Position &downRight,
+        std::vector<GridBase::Position> &left, std::vector<GridBase::Position> &right)
+{
+    if(upRight.y > downRight.y)
+    {
+        //points of left side
+        lineBresenham(upRight, upLeft, left);
+        lineBresenham(upLeft, downLeft, left);
+
+        //points of right side
+        lineBresenham(upRight, downRight, right);
+        lineBresenham(downRight, downLeft, right);
+    }
+    else
+    {
+        //points of left side
+        lineBresenham(downRight, upRight, left);
+        lineBresenham(upRight, upLeft, left);
+
+        //points of right side
+        lineBresenham(downRight, downLeft, right);
+        lineBresenham(downLeft, upLeft, right);
+    }
+}
+
 bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, double innerSizeX_w, double innerSizeY_w, boost::function< void (size_t, size_t)> innerCallback, double outerSizeX_w, double outerSizeY_w, boost::function< void (size_t, size_t)> outerCallback) const
 {
     double multiplier = 10;
@@ -142,38 +170,8 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
     std::vector<envire::GridBase::Position> leftOut;
     std::vector<envire::GridBase::Position> rightOut;
     
-    if(upRight_g.y > downRight_g.y)
-    {
-        //points of left side
-        lineBresenham(upRight_g, upLeft_g, leftIn);
-        lineBresenham(upLeft_g, downLeft_g, leftIn);
-
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-        lineBresenham(upLeftOut, downLeftOut, leftOut);
-
-        //points of right side
-        lineBresenham(upRight_g, downRight_g, rightIn);
-        lineBresenham(downRight_g, downLeft_g, rightIn);
-
-        lineBresenham(upRightOut, downRightOut, rightOut);
-        lineBresenham(downRightOut, downLeftOut, rightOut);
-    }
-    else
-    {
-        //points of left side
-        lineBresenham(downRight_g, upRight_g, leftIn);
-        lineBresenham(upRight_g, upLeft_g, leftIn);
-
-        lineBresenham(downRightOut, upRightOut, leftOut);
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-
-        //points of right side
-        lineBresenham(downRight_g, downLeft_g, rightIn);
-        lineBresenham(downLeft_g, upLeft_g, rightIn);
-
-        lineBresenham(downRightOut, downLeftOut, rightOut);
-        lineBresenham(downLeftOut, upLeftOut, rightOut);
-    }
+    getRectSides(upLeft_g, upRight_g, downLeft_g, downRight_g, leftIn, rightIn);
+    getRectSides(upLeftOut, upRightOut, downLeftOut, downRightOut, leftOut, rightOut);
 
 //     std::cout << "Left " << std::endl;
 //     for(std::vector<envire::GridBase::Position>::const_iterator it = leftOut.begin(); it != leftOut.end(); it++ )
@@ -192,15 +190,11 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
     std::vector<envire::GridBase::Position>::const_iterator rightOutIt = rightOut.begin();
 
     
-    size_t inY;
     size_t outY;
     size_t minX, maxX;
     size_t minXOut, maxXOut;
     while((leftOutIt != leftOut.end()) && (rightOutIt != rightOut.end()))
     {
-        if(leftInIt != leftIn.end())
-            inY = leftInIt->y / multiplier;
-        
         outY = leftOutIt->y / multiplier;
 
         maxX = 0;
@@ -248,6 +242,9 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
             rightOutIt++;
         }
         
+        // see if the inner rectangle has points in this row
+        const bool hasInner = minX <= maxX;
+
         minX /= multiplier;
         maxX /= multiplier;
         minXOut /= multiplier;
@@ -256,7 +253,7 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
         if(outY >= cellSizeY)
             continue;
         
-        if(inY == outY)
+        if(hasInner)
         {
             for(size_t x = minXOut; x < minX; x++)
             {
-- 
2.43.0


From fe6900e6d031428ea928f8d4e43d5c655390bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 043/193] fix: getMinMaxValues of a band of negative floating
 point values

---
 src/maps/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a8c05ef..c06fff4 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -179,7 +179,7 @@ namespace envire
         void getMinMaxValues( const std::string& key, T& min, T& max )
         {
             min = std::numeric_limits<T>::max();
-            max = std::numeric_limits<T>::min();
+            max = std::numeric_limits<T>::lowest();
 
             ArrayType& a = getGridData( key );
             for( T* i = a.data(); i < (a.data() + a.num_elements()); i++ )
-- 
2.43.0


From af1645a7ad9f2fd81ffcf5040dd422f3f46207d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 044/193] fix: every access to a grid band invalidated earlier
 references to its cells

---
 src/maps/Grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index c06fff4..2978af6 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -197,7 +197,9 @@ namespace envire
 	ArrayType& getGridData( const std::string& key )
 	{
 	    ArrayType& data( getData<ArrayType>(key) );
-	    data.resize( boost::extents[cellSizeY][cellSizeX] );
+	    // resizing always moves the data, so only do it when it is needed
+	    if( data.shape()[0] != cellSizeY || data.shape()[1] != cellSizeX )
+		data.resize( boost::extents[cellSizeY][cellSizeX] );
 	    return data;
 	};
         /** Returns the boost::multiarray that stores the data of the specified band
-- 
2.43.0


From 7ae20570e0b3023ba5eed18b30354a801bb6ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 045/193] fix: a grid band was read from an incomplete stream

---
 src/maps/Grid.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index 2978af6..8f1b77d 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -495,6 +495,8 @@ namespace envire
     {
         ArrayType &data = getGridData(key);
         is.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.num_elements());
+        if (!is)
+            throw std::runtime_error("not enough data for the band " + key);
     }
 
     template<class T>void Grid<T>::writeGridData(const std::string &key,const std::string& path)
-- 
2.43.0


From dd840a5165069fabbf6aa1d353f8dbeba3b88160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 046/193] fix: the nodata value of a grid band was lost in
 binary events

---
 src/maps/Grid.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index 8f1b77d..c0cf0bc 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -407,7 +407,13 @@ namespace envire
 	    else
 	    {
 		for (int i = 0; i < count; ++i)
+		{
 		    readGridData(layers[i], so.getBinaryInputStream(getFullPath(getMapFileName( getClassName() ), layers[i])));
+
+		    const std::string nodataKey = "nodata_" + boost::lexical_cast<std::string>(i);
+		    if( so.hasKey(nodataKey) )
+			setNoData( layers[i], T(so.read<double>(nodataKey)) );
+		}
 	    }
 	}
 	else
@@ -449,8 +455,15 @@ namespace envire
 		    writeGridData(layers[i], getFullPath(getMapFileName( fso->getMapPath(), getClassName() ), layers[i]));
 	    else
 		for( size_t i=0; i<layers.size(); i++ )
+		{
 		    writeGridData(layers[i], so.getBinaryOutputStream(getFullPath(getMapFileName(), layers[i])));
 
+		    // the raster files store the nodata value, the plain data does not
+		    std::pair<T, bool> no_data = getNoData(layers[i]);
+		    if( no_data.second )
+			so.write("nodata_" + boost::lexical_cast<std::string>(i), double(no_data.first));
+		}
+
         so.write("map_count", layers.size());
     }
 
-- 
2.43.0


From 70d66831e97f87df882cec5238fd154f921183d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:20 +0000
Subject: [PATCH 047/193] fix: Grid::set used the assignment of the base class
 with some compilers

---
 src/maps/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index c0cf0bc..e62934b 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -484,7 +484,7 @@ namespace envire
     template<class T>void Grid<T>::set(EnvironmentItem* other)
     {
 	Grid<T>* gp = dynamic_cast<Grid<T>*>( other );
-	if( gp ) operator=( *gp );
+	if( gp ) *this = *gp;
     }
 
     template<class T>
-- 
2.43.0


From 86ea99338d86d947bf2b2a6456239b3cdcbb292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:08 +0000
Subject: [PATCH 048/193] fix: raster files were left open, and band 0 was
 dereferenced

---
 src/maps/Grid.hpp     | 7 +++++--
 src/maps/GridBase.cpp | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index e62934b..bf24285 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -19,6 +19,7 @@
 #include <gdal/ogr_spatialref.h>
 
 #include <boost/multi_array.hpp>
+#include <boost/shared_ptr.hpp>
 
 #include <vector>
 #include <stdexcept>
@@ -540,6 +541,8 @@ namespace envire
 
         if (!poDstDS)
             throw std::runtime_error("failed to create file " + path);
+	// close the file in any case
+	boost::shared_ptr<GDALDataset> closer( poDstDS, GDALClose );
 
 	// get the scale and transform value so that they can be
 	// added as a geotransform
@@ -600,7 +603,6 @@ namespace envire
 	  poBand->RasterIO(GF_Write ,0,0,cellSizeX,cellSizeY,data.data(),cellSizeX,cellSizeY,poBand->GetRasterDataType(),0,0);
 	  preCallWriteBand(*iter,poBand);
 	}
-	GDALClose( (GDALDatasetH) poDstDS );
     }
 
     template<class T>void Grid<T>::readGridData(const std::vector<std::string> &keys,const std::string& path, int base_band, boost::enable_if< boost::is_fundamental<T> >* enabler)
@@ -611,6 +613,8 @@ namespace envire
       poDataset = (GDALDataset *) GDALOpen(path.c_str(), GA_ReadOnly );
       if( poDataset == NULL )
 	  throw std::runtime_error("can not open file " + path);
+      // close the file in any case
+      boost::shared_ptr<GDALDataset> closer( poDataset, GDALClose );
 
       double file_cellSizeX =  poDataset->GetRasterXSize();
       double file_cellSizeY =  poDataset->GetRasterYSize();
@@ -704,7 +708,6 @@ namespace envire
             data.resize( boost::extents[cellSizeY][cellSizeX] );
         }
       }
-      GDALClose(poDataset);
     }
 
     template<class T>void Grid<T>::readGridData(const std::string &key,const std::string& path, int base_band, boost::enable_if< boost::is_fundamental<T> >* enabler)
diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 8989245..6cfacd9 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -510,9 +510,11 @@ std::pair<GridBase::Ptr, envire::Transform> GridBase::readGridFromGdal(std::stri
     poDataset = (GDALDataset *) GDALOpen(path.c_str(), GA_ReadOnly );
     if( poDataset == NULL )
         throw std::runtime_error("can not open file " + path);
+    // close the file in any case
+    boost::shared_ptr<GDALDataset> closer( poDataset, GDALClose );
 
     GDALRasterBand  *poBand;
-    if(poDataset->GetRasterCount() < band)
+    if(band < 1 || poDataset->GetRasterCount() < band)
     {
         std::stringstream strstr;
         strstr << "file " << path << " has " << poDataset->GetRasterCount() 
-- 
2.43.0


From 47dd37da37e363a9e9353af3b9b861b4b979e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:54 +0000
Subject: [PATCH 049/193] fix: MLSGrid: count and locate the patches again
 after a move

---
 src/maps/MLSGrid.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0dd3536..e7970ee 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -762,5 +762,19 @@ void MLSGrid::initIndex()
 void MLSGrid::move(int x, int y)
 {
     cells.move(x, y);
+
+    // patches may have left the grid, and all others are in different cells
+    cellcount = 0;
+    extents = CellExtents();
+    if( index )
+	index->reset();
+    for(size_t xi=0;xi<cellSizeX;xi++)
+    {
+	for(size_t yi=0;yi<cellSizeY;yi++)
+	{
+	    for( iterator it = beginCell( xi,yi ); it != endCell(); it++ )
+		addCell( Position( xi, yi ) );
+	}
+    }
 }
 
-- 
2.43.0


From 7457fdf6157c90987c84522969507da636b5cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:54 +0000
Subject: [PATCH 050/193] fix: MLSGrid: update the index on assignment

---
 src/maps/MLSGrid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index e7970ee..3e96f4c 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -54,6 +54,10 @@ MLSGrid& MLSGrid::operator=(const MLSGrid& other)
 	extents = other.extents;
 	config = other.config;
 	cellcount = other.cellcount;
+
+	// the index has to follow the new content
+	if( index )
+	    initIndex();
     }
 
     return *this;
-- 
2.43.0


From 72db43fc004a9a63aa73d6a5afa92e571c36be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:54 +0000
Subject: [PATCH 051/193] fix: MLSGrid: serialize gap size and patch thickness

---
 src/maps/MLSGrid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 3e96f4c..51cd162 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -152,6 +152,8 @@ void MLSGrid::serialize(Serialization& so)
     so.write( "hasCellColor", config.useColor );
     long updateModelInt = static_cast<long>( config.updateModel );
     so.write( "updateModel", updateModelInt );
+    so.write( "gapSize", config.gapSize );
+    so.write( "patchThickness", config.thickness );
     writeMap( so.getBinaryOutputStream(getMapFileName() + ".mls") );
 }
 
@@ -169,6 +171,10 @@ void MLSGrid::unserialize(Serialization& so)
 	so.read( "hasCellColor", config.useColor );
     else
 	config.useColor = false;
+    if( so.hasKey( "gapSize" ) )
+	so.read( "gapSize", config.gapSize );
+    if( so.hasKey( "patchThickness" ) )
+	so.read( "patchThickness", config.thickness );
 
     cells.resize( cellSizeX, cellSizeY );
 
-- 
2.43.0


From 23a2398186d30c4738d4528ce42e5f891993456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:54 +0000
Subject: [PATCH 052/193] fix: MLSGrid: refuse damaged patch files

---
 src/maps/MLSGrid.cpp | 92 +++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 51cd162..0ada378 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -1,6 +1,8 @@
 #include "MLSGrid.hpp"
 #include <fstream>
 #include <limits>
+#include <cstddef>
+#include <vector>
 #include <algorithm>
 
 using namespace envire;
@@ -208,6 +210,11 @@ void MLSGrid::unserialize(Serialization& so)
     readMap( *is );
 }
 
+static bool isBool( char value )
+{
+    return value == 0 || value == 1;
+}
+
 // memory structure of version 1.0
 struct SurfacePatchStore10
 {
@@ -219,6 +226,11 @@ struct SurfacePatchStore10
 
     size_t xi, yi;
 
+    static bool isValid( const char* data )
+    {
+	return isBool( data[offsetof( SurfacePatchStore10, horizontal )] );
+    }
+
     SurfacePatch toSurfacePatch()
     {
 	SurfacePatch p( mean, stdev, height, horizontal ? SurfacePatch::HORIZONTAL : SurfacePatch::VERTICAL );
@@ -239,6 +251,11 @@ struct SurfacePatchStore11
 
     size_t xi, yi;
 
+    static bool isValid( const char* data )
+    {
+	return isBool( data[offsetof( SurfacePatchStore11, horizontal )] );
+    }
+
     SurfacePatch toSurfacePatch()
     {
 	SurfacePatch p( mean, stdev, height, horizontal ? SurfacePatch::HORIZONTAL : SurfacePatch::VERTICAL );
@@ -259,6 +276,11 @@ struct SurfacePatchStore12
 
     size_t xi, yi;
 
+    static bool isValid( const char* data )
+    {
+	return isBool( data[offsetof( SurfacePatchStore12, horizontal )] );
+    }
+
     SurfacePatch toSurfacePatch()
     {
 	SurfacePatch p( mean, stdev, height, horizontal ? SurfacePatch::HORIZONTAL : SurfacePatch::VERTICAL );
@@ -282,6 +304,13 @@ struct SurfacePatchStore13
 
     size_t xi, yi;
 
+    static bool isValid( const char* data )
+    {
+	int t;
+	std::copy( data + offsetof( SurfacePatchStore13, type ), data + offsetof( SurfacePatchStore13, type ) + sizeof( t ), reinterpret_cast<char*>(&t) );
+	return t == SurfacePatch::VERTICAL || t == SurfacePatch::HORIZONTAL || t == SurfacePatch::NEGATIVE;
+    }
+
     SurfacePatch toSurfacePatch()
     {
 	SurfacePatch p( mean, stdev, height, type );
@@ -326,6 +355,29 @@ void MLSGrid::writeMap(std::ostream& os)
     }
 }
 
+/** read the records of one file version, and insert them into the grid */
+template <class Store>
+static void readPatches( MLSGrid& grid, std::istream& is, int struct_size )
+{
+    if( struct_size != sizeof( Store ) )
+	throw std::runtime_error("binary size mismatch");
+
+    std::vector<char> buffer( sizeof( Store ) );
+    while( is.read( &buffer[0], buffer.size() ) )
+    {
+	// the record may come from a damaged file
+	if( !Store::isValid( &buffer[0] ) )
+	    throw std::runtime_error("invalid surface patch");
+	Store d;
+	std::copy( buffer.begin(), buffer.end(), reinterpret_cast<char*>(&d) );
+	if( d.xi >= grid.getCellSizeX() || d.yi >= grid.getCellSizeY() )
+	    throw std::runtime_error("surface patch outside of the grid");
+	grid.insertTail( d.xi, d.yi, d.toSurfacePatch() );
+    }
+    if( is.gcount() )
+	throw std::runtime_error("incomplete surface patch");
+}
+
 void MLSGrid::readMap(std::istream& is)
 {   
     char c[32];
@@ -345,45 +397,13 @@ void MLSGrid::readMap(std::istream& is)
 	throw std::runtime_error("missing bin identifier" + std::string(c));
 
     if( version == "1.0" )
-    {
-	if( struct_size != sizeof( SurfacePatchStore10 ) )
-	    throw std::runtime_error("binary size mismatch");
-	SurfacePatchStore10 d;
-	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore10 ) ) )
-	{
-	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
-	}
-    }
+	readPatches<SurfacePatchStore10>( *this, is, struct_size );
     else if( version == "1.1" )
-    {
-	if( struct_size != sizeof( SurfacePatchStore11 ) )
-	    throw std::runtime_error("binary size mismatch");
-	SurfacePatchStore11 d;
-	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore11 ) ) )
-	{
-	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
-	}
-    }
+	readPatches<SurfacePatchStore11>( *this, is, struct_size );
     else if( version == "1.2" )
-    {
-	if( struct_size != sizeof( SurfacePatchStore12 ) )
-	    throw std::runtime_error("binary size mismatch");
-	SurfacePatchStore12 d;
-	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore12 ) ) )
-	{
-	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
-	}
-    }
+	readPatches<SurfacePatchStore12>( *this, is, struct_size );
     else if( version == "1.3" )
-    {
-	if( struct_size != sizeof( SurfacePatchStore13 ) )
-	    throw std::runtime_error("binary size mismatch");
-	SurfacePatchStore13 d;
-	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore13 ) ) )
-	{
-	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
-	}
-    }
+	readPatches<SurfacePatchStore13>( *this, is, struct_size );
 }
 
 MLSGrid::iterator MLSGrid::beginCell( size_t xi, size_t yi )
-- 
2.43.0


From acc4f79d2bdb9896faca0fded1e4c56c32029d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 053/193] fix: SurfacePatch: merge patches which enclose the
 other

---
 src/maps/MLSPatch.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 12db02c..6b14605 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -11,9 +11,7 @@ namespace envire
 template <class T>
 inline bool overlap( T a1, T a2, T b1, T b2 )
 {
-    return 
-	((a1 < b2) && (a2 > b2)) ||
-	((a1 < b1) && (a2 > b1));
+    return (a1 < b2) && (a2 > b1);
 }
 
 
-- 
2.43.0


From f1abc52b4d329bc3e764f6e2f8622fb46c35c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 054/193] fix: SurfacePatch: variance of the sum model
 independent of the absolute height

---
 src/maps/MLSPatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 6b14605..ce9adae 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -78,7 +78,7 @@ struct SurfacePatch
         if( n > 1 )
         {
             float var = 
-                std::max(1e-6f, (float)((plane.zz - (pow(mean,2)*(plane.n - 2.0))) * norm - n/plane.n));
+                std::max(1e-6f, (float)((plane.zz - pow(mean,2)*plane.n) * norm - n/plane.n));
             stdev = sqrt(var);
         }
         else
-- 
2.43.0


From a867b58b3a3d190080e359cf9f951af7aeafbadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 055/193] fix: SurfacePatch: never enlarge or invert patches
 when cutting them

---
 src/maps/MLSPatch.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index ce9adae..72cd458 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -314,7 +314,7 @@ struct SurfacePatch
 		    {
 			// the new patch fully encloses the old one, 
 			// so will overwrite it
-			if( ro.mean > rp.mean && ro.mean - ro.height < rp.mean - rp.height )
+			if( ro.mean >= rp.mean && ro.mean - ro.height <= rp.mean - rp.height )
 			{
 			    p = ro;
 			    return true; 
@@ -323,7 +323,11 @@ struct SurfacePatch
 			// the other patch is occupied, so cut
 			// the free patch accordingly
 			if( ro.mean < rp.mean )
-			    rp.height = rp.mean - ro.mean;
+			{
+			    // only if they actually overlap
+			    if( ro.mean > rp.mean - rp.height )
+				rp.height = rp.mean - ro.mean;
+			}
 			else if( ro.mean - ro.height < rp.mean )
 			{
 			    double new_mean = ro.mean - ro.height;
-- 
2.43.0


From 77eb7dc8df9629f031bb91d348f556b7ee5e9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 056/193] fix: SurfacePatch: initialize the color, round and
 clamp it when set

---
 src/maps/MLSPatch.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 72cd458..3fa300e 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -57,6 +57,7 @@ struct SurfacePatch
 	    plane.n = 1.0/pow(stdev,2);
 	    plane.z = mean * plane.n;
 	    plane.zz = pow(mean,2) * plane.n;
+	    setColor( base::Vector3d::Zero() );
 	};
 
     SurfacePatch( const Eigen::Vector3f &p, float stdev )
@@ -68,6 +69,7 @@ struct SurfacePatch
 	update_idx(0),
 	type( HORIZONTAL )
 	{
+	    setColor( base::Vector3d::Zero() );
 	    updatePlane();
 	};
 
@@ -192,9 +194,8 @@ struct SurfacePatch
 
     void setColor( const base::Vector3d& c )
     {
-	color[0] = c[0] * 255;
-	color[1] = c[1] * 255;
-	color[2] = c[2] * 255;
+	for( int i=0; i<3; i++ )
+	    color[i] = std::min( 255.0, std::max( 0.0, c[i] * 255.0 + 0.5 ) );
     }
 
     float getHeight( const Eigen::Vector2f& pos ) const
-- 
2.43.0


From 1e1b4cfff96d7c1fa36e6581079a9722744b2bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 057/193] fix: MLSGrid: move the measurements of merged patches
 along

---
 src/maps/MLSGrid.cpp  |  2 +-
 src/maps/MLSPatch.hpp | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0ada378..05d19a9 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -640,7 +640,7 @@ void MLSGrid::merge( const MLSGrid& other, const Eigen::Affine3d& other2this, co
 	    for(envire::MLSGrid::const_iterator cit = other.beginCell(it->x,it->y); cit != other.endCell(); cit++ )
 	    {
 		SurfacePatch meas_patch( *cit );
-		meas_patch.mean += offset.mean + mappos.z();
+		meas_patch.shift( offset.mean + mappos.z() );
 		meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 		meas_patch.update_idx = offset.update_idx;
 
diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 3fa300e..deddd60 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -396,6 +396,21 @@ struct SurfacePatch
 	return false;
     }
 
+    /**
+     * @brief move the patch vertically, including the measurements it
+     * represents
+     */
+    void shift( float dz )
+    {
+	mean += dz;
+	min += dz;
+	max += dz;
+	plane.zz += 2.0f * dz * plane.z + dz * dz * plane.n;
+	plane.xz += dz * plane.x;
+	plane.yz += dz * plane.y;
+	plane.z += dz * plane.n;
+    }
+
     /** 
      * @brief get the weighting for the patch
      * This value will depend on the uncertainty with which it was applied. It
-- 
2.43.0


From fa7516ced040dff75ad11762fbd060800a2dedaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 058/193] fix: MLSGrid: consider the height of the
 transformation in match()

---
 src/maps/MLSGrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 05d19a9..7dec8e1 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -678,6 +678,7 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 	    size_t m, n;
 	    if( toGrid( pos.x(), pos.y(), m, n ) )
 	    {
+		const double pos_z = pos.z();
 		Position pos(m, n);
 		// iterate through cells in source map
 		envire::MLSGrid::const_iterator cit = other.beginCell(it->x,it->y); 
@@ -686,7 +687,7 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 		    while( cit != other.endCell() )
 		    {
 			SurfacePatch meas_patch( *cit );
-			meas_patch.mean += offset.mean;
+			meas_patch.mean += offset.mean + pos_z;
 			meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 			meas_patch.update_idx = offset.update_idx;
 
-- 
2.43.0


From 75778a36c2bfe0ac25b750b7dc970b0288289a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 059/193] fix: MLSGrid: count measurements which connect
 several patches once

---
 src/maps/MLSGrid.cpp | 45 ++++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 7dec8e1..da34b87 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -511,43 +511,34 @@ void MLSGrid::updateCell( const Position& pos, const SurfacePatch& o )
 
 void MLSGrid::updateCell( size_t xi, size_t yi, const SurfacePatch& co )
 {
-    typedef std::list<MLSGrid::iterator> iterator_list;
-    iterator_list merged;
     // make a copy of the surfacepatch as it may get updated in the merge
     SurfacePatch o( co );
 
-    for(MLSGrid::iterator it = beginCell( xi, yi ); it != endCell(); it++ )
+    // the patch o got merged with
+    MLSGrid::iterator merged = endCell();
+
+    MLSGrid::iterator it = beginCell( xi, yi );
+    while( it != endCell() )
     {
-	// merge the patches and remember the ones which where merged 
-	if( mergePatch( *it, o ) )
-	    merged.push_back( it );
+	if( merged == endCell() )
+	{
+	    if( mergePatch( *it, o ) )
+		merged = it;
+	    it++;
+	}
+	// o is part of the merged patch by now, and must not be counted
+	// again. If it affects more than one patch, merge these.
+	else if( mergePatch( *merged, *it ) )
+	    it = erase( it );
+	else
+	    it++;
     }
 
-    if( merged.empty() )
+    if( merged == endCell() )
     {
 	// insert the patch since we didn't merge it with any other
 	insertHead( xi, yi, o );
     }
-    else
-    {
-	// if there is more than one affected patch, merge them until 
-	// there is only one left
-	while( !merged.empty() )
-	{
-	    iterator_list::iterator it = ++merged.begin();
-	    while( it != merged.end() ) 
-	    {
-		if( mergePatch( **merged.begin(), **it ) )
-		{
-		    erase( *it );
-		    it = merged.erase( it );
-		}
-		else
-		    it++;
-	    }
-	    merged.pop_front();
-	}
-    }
 }
 
 bool MLSGrid::update( const Eigen::Vector2d& pos, const SurfacePatch& patch )
-- 
2.43.0


From 4e1de93d2d59660e2f2cd5081c6a977a9e415e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 060/193] fix: MLSMap: copy the label and the metadata

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index ec6bccf..78ada41 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -27,7 +27,7 @@ MLSMap::MLSMap()
 }
 
 MLSMap::MLSMap(const MLSMap& other)
-    : grids( other.grids ), active( other.active )
+    : Map<2>( other ), grids( other.grids ), active( other.active )
 {
 }
 
-- 
2.43.0


From 4515108e55d139810e82e4ed7f54cef708c3af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 061/193] fix: MLSMap: getPatch used outdated transforms of
 grids, and removed grids

---
 src/maps/MLSMap.cpp | 12 ++++++++----
 src/maps/MLSMap.hpp |  3 ---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 78ada41..87793ff 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -39,6 +39,7 @@ MLSMap& MLSMap::operator=(const MLSMap& other)
 
 	grids = other.grids;
 	active = other.active;
+	cache = Cache();
 
 	if( isAttached() )
 	{
@@ -85,11 +86,15 @@ inline bool getPatch( MLSGrid* grid, const Transform& C_m2g, const Point& p, MLS
 
 bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_threshold )
 {
-    // see if we can use the cache. This will reduce the amount of transform
+    // see if we can use the grid of the last query. This will reduce the amount of transform
     // calculations
-    if( cache.grid )
-	if( ::getPatch( cache.grid, cache.trans, p, patch, sigma_threshold ) )
+    // the grid may have been moved or removed since
+    if( cache.grid && std::find( grids.begin(), grids.end(), cache.grid ) != grids.end() )
+    {
+	Transform C_m2g = env->relativeTransform( getFrameNode(), cache.grid->getFrameNode() );
+	if( ::getPatch( cache.grid, C_m2g, p, patch, sigma_threshold ) )
 	    return true;
+    }
 
     // go backwards in the list, and try to find the point in any of the grids
     for( std::vector<MLSGrid::Ptr>::reverse_iterator it = grids.rbegin(); it != grids.rend(); it++ )
@@ -99,7 +104,6 @@ bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_thresho
 	if( ::getPatch( grid, C_m2g, p, patch, sigma_threshold ) )
 	{
 	    cache.grid = it->get();
-	    cache.trans = C_m2g;
 	    return true;
 	}
     }
diff --git a/src/maps/MLSMap.hpp b/src/maps/MLSMap.hpp
index 806bd47..a826ff7 100644
--- a/src/maps/MLSMap.hpp
+++ b/src/maps/MLSMap.hpp
@@ -75,11 +75,8 @@ public:
 protected:
     struct Cache
     {
-     public:
-        EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 	Cache() : grid( NULL ) {}
 	MLSGrid* grid;
-	Transform trans;
     };
 
     Cache cache;
-- 
2.43.0


From 7e7bf68b5eda71d09cf772b5f431f364f7b66e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 062/193] fix: MLSMap: align grids which are placed relative to
 the map

---
 src/maps/MLSMap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 87793ff..c3b8e6a 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -155,11 +155,19 @@ void MLSMap::createGrid( const Transform& trans, bool relative, bool aligned )
     Transform t = trans;
     if( aligned )
     {
+	// alignment is relative to the active grid
+	Transform C_m2a( Transform::Identity() );
+	if( !relative )
+	    C_m2a = env->relativeTransform( getFrameNode(), active->getFrameNode() );
+	t = C_m2a * t;
+
 	// remove rotation
 	t.linear().setIdentity();
 	// align to grid size
 	t.translation().x() = floor(t.translation().x() / active->getScaleX()) * active->getScaleX();
 	t.translation().y() = floor(t.translation().y() / active->getScaleY()) * active->getScaleY();
+
+	t = C_m2a.inverse( Eigen::Isometry ) * t;
     }
 
     MLSGrid* grid_clone = active->cloneShallow(); 
-- 
2.43.0


From d7e84857a4090edf49e9fb8602385ccb158f7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 063/193] fix: MLSMap: selectActiveGrid ignored whether to
 align the new grid

---
 src/maps/MLSMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index c3b8e6a..e5fbd1e 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -139,10 +139,10 @@ void MLSMap::selectActiveGrid( const FrameNode* fn, double threshold, bool align
     {
 	active = best_grid;
     }
-    else
+    else if( active )
     {
 	Transform t = fn->relativeTransform( getActiveGrid()->getFrameNode() );
-	createGrid( t, true, true );
+	createGrid( t, true, aligned );
     }
 }
 
-- 
2.43.0


From 0b36755e62d6aade9397f073c285405db994e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 064/193] fix: MLSMap: cloneDeep of a map without grids

---
 src/maps/MLSMap.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index e5fbd1e..2fe0c22 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -191,16 +191,19 @@ MLSMap* MLSMap::cloneDeep()
     {
 	// create a copy of the currently active map
 	// and reference the others
-	MLSGrid* active_clone = active->clone();
-	active_clone->setUniqueId( getUniqueIdPrefix() + "/" );
-	std::vector<MLSGrid::Ptr>::iterator it = 
-	    std::find( res->grids.begin(), res->grids.end(), active );
+	if( active )
+	{
+	    MLSGrid* active_clone = active->clone();
+	    active_clone->setUniqueId( getUniqueIdPrefix() + "/" );
+	    std::vector<MLSGrid::Ptr>::iterator it = 
+		std::find( res->grids.begin(), res->grids.end(), active );
 
-	assert( it != res->grids.end() );
-	*it = active_clone;
-	res->active = active_clone;
+	    assert( it != res->grids.end() );
+	    *it = active_clone;
+	    res->active = active_clone;
 
-	env->setFrameNode( active_clone, active->getFrameNode() );
+	    env->setFrameNode( active_clone, active->getFrameNode() );
+	}
 	
 	env->attachItem( res );
 
-- 
2.43.0


From e9f0f6fc73574fc8801dac48b5cde507cdc52a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 065/193] fix: MLSMap: ignore children which are no grids in
 getExtents

---
 src/maps/MLSMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 2fe0c22..552f2d1 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -13,6 +13,8 @@ Eigen::AlignedBox<double, 2> MLSMap::getExtents() const
     for( std::list<const Layer*>::const_iterator it = children.begin(); it != children.end(); it++ )
     {
 	const envire::MLSGrid *grid = dynamic_cast<const envire::MLSGrid*>( *it );
+	if( !grid )
+	    continue;
 	// currently this assumes that child grids are not rotated
 	// TODO handle rotated child grids here
 	Eigen::Affine3d g2m = grid->getFrameNode()->relativeTransform( this->getFrameNode() );
-- 
2.43.0


From 4b067a1c7aafef12c220076f88ca6fbeb90fa3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 066/193] fix: MapSegment: extents of 2D maps

---
 src/maps/MapSegment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/MapSegment.cpp b/src/maps/MapSegment.cpp
index b3aef48..12d48d2 100644
--- a/src/maps/MapSegment.cpp
+++ b/src/maps/MapSegment.cpp
@@ -37,7 +37,8 @@ envire::Map<3>::Extents MapSegment::getExtents() const
 	}
 	else if( map2 )
 	{
-	    Eigen::AlignedBox<double, 3> e3;
+	    // 2D maps are in the plane of their frame
+	    Eigen::AlignedBox<double, 3> e3( Eigen::Vector3d::Zero().eval(), Eigen::Vector3d::Zero().eval() );
 	    e3.min().head<2>() = map2->getExtents().min();
 	    e3.max().head<2>() = map2->getExtents().max();
 	    extents.extend( e3.translate( g2m.translation() ) );
-- 
2.43.0


From 6a4eb94cf75532fcf6fda1c0d2f3f294b4b782a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 067/193] fix: PlyFile: round and clamp the colors

---
 src/tools/PlyFile.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 6471f1c..5120e30 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -1,4 +1,5 @@
 #include "PlyFile.hpp"
+#include <algorithm>
 #include <fstream>
 #include <tr1/functional>
 
@@ -284,12 +285,11 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
 
 	for(size_t i=0;i<colors.size();i++)
 	{
-	    unsigned char r = colors[i].x()*255; 
-	    unsigned char g = colors[i].y()*255; 
-	    unsigned char b = colors[i].z()*255; 
-	    data.write( reinterpret_cast<char*>(&r), sizeof(unsigned char) );
-	    data.write( reinterpret_cast<char*>(&g), sizeof(unsigned char) );
-	    data.write( reinterpret_cast<char*>(&b), sizeof(unsigned char) );
+	    for(int n=0;n<3;n++)
+	    {
+		unsigned char c = std::min( 255.0, std::max( 0.0, colors[i][n]*255.0 + 0.5 ) );
+		data.write( reinterpret_cast<char*>(&c), sizeof(unsigned char) );
+	    }
 	}
     }
 
-- 
2.43.0


From 6067e0b08625b83969aa644b8bf63f7f8806240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 068/193] fix: PlyFile: write pointclouds without colors or
 normals in their data

---
 src/tools/PlyFile.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 5120e30..119c5e5 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -176,6 +176,12 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
     const std::string version = "1.0";
     const std::string precision = doublePrecision ? "double" : "float";
 
+    // the data may exist, but not be filled
+    const bool hasNormals = pointcloud->hasData( Pointcloud::VERTEX_NORMAL )
+	&& !pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ).empty();
+    const bool hasColors = pointcloud->hasData( Pointcloud::VERTEX_COLOR )
+	&& !pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ).empty();
+
     data << "ply" << "\n";
     data << "format ";
     if( ply::host_byte_order == ply::little_endian_byte_order )
@@ -194,7 +200,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
     data << "property " << precision << " y\n";
     data << "property " << precision << " z\n";
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_NORMAL ) )
+    if( hasNormals )
     {
 	data << "element normal " << pointcloud->vertices.size() <<  "\n";
 	data << "property " << precision << " x\n";
@@ -202,7 +208,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
 	data << "property " << precision << " z\n";
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_COLOR ) )
+    if( hasColors )
     {
 	data << "element color " << pointcloud->vertices.size() <<  "\n";
 	data << "property uchar red\n";
@@ -246,7 +252,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
       }
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_NORMAL ) )
+    if( hasNormals )
     {
 	std::vector<Eigen::Vector3d> &normals( pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ) );
 	if( normals.size() != pointcloud->vertices.size() )
@@ -277,7 +283,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
         }
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_COLOR ) )
+    if( hasColors )
     {
 	std::vector<Eigen::Vector3d> &colors( pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 	if( colors.size() != pointcloud->vertices.size() )
-- 
2.43.0


From 1f38d1fe663d3208c032c61da4835e8a42d44e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 069/193] fix: PlyFile: refuse faces with absent vertices, skip
 those which are no triangles

---
 src/tools/PlyFile.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 119c5e5..c186e06 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -81,8 +81,9 @@ void PlyFile::list_property_begin_callback(SizeType size)
 template <typename SizeType, typename ScalarType>
 void PlyFile::list_property_element_callback(ScalarType scalar)
 {
-    if( static_cast<size_t>(scalar) >= pco_->vertices.size() )
-	std::cerr << "vertex_index " << scalar << " is out of range!" << std::endl;
+    // written this way to refuse NaN as well
+    if( !(scalar >= 0 && scalar < pco_->vertices.size()) )
+	throw std::runtime_error("vertex index out of range in ply file " + filename_ );
 
     switch( triangle_idx__ )
     {
@@ -98,7 +99,8 @@ void PlyFile::list_property_element_callback(ScalarType scalar)
 template <typename SizeType, typename ScalarType>
 void PlyFile::list_property_end_callback()
 {
-    tmo_->faces.push_back( triangle__ );
+    if( triangle_idx__ == 3 )
+	tmo_->faces.push_back( triangle__ );
 }
 
 template <typename DummyType>
-- 
2.43.0


From 001acdba5689303ab5475d91e914bb2d3d60b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 070/193] fix: Pointcloud: write all digits in writeText

---
 src/maps/Pointcloud.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 09d6083..9d9aced 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -72,10 +72,13 @@ bool Pointcloud::readPly(const std::string& filename, std::istream& is)
 
 bool Pointcloud::writeText(std::ostream& os)
 {
+    // enough digits to read the same values back
+    std::streamsize precision = os.precision( 17 );
     for(size_t i=0;i<vertices.size();i++)
     {
 	os << vertices[i].x() << " " << vertices[i].y() << " " << vertices[i].z() << std::endl;
     }
+    os.precision( precision );
     
     return true;
 }
-- 
2.43.0


From 6f4611a5c19385f3766f1a343d09a6737d83d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 071/193] fix: Pointcloud: do not loop forever on text files
 that cannot be parsed

---
 src/maps/Pointcloud.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 9d9aced..f52b733 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -3,6 +3,8 @@
 #include "tools/PlyFile.hpp"
 
 #include <fstream>
+#include <sstream>
+#include <string>
 
 using namespace envire;
 
@@ -85,29 +87,30 @@ bool Pointcloud::writeText(std::ostream& os)
 
 bool Pointcloud::readText(std::istream& is, int sample, TextFormat format)
 {
-    const int max_line_length = 255;
     std::vector<Eigen::Vector3d> *color = 0;
     if(format == XYZR )
         color = &getVertexData<Eigen::Vector3d>( VERTEX_COLOR );
-    while( !is.eof() )
+    std::string line;
+    while( std::getline( is, line ) )
     {
+	if( line.find_first_not_of( " \t\r" ) == std::string::npos )
+	    continue;
+
 	if( sample == 1 || (rand() % sample == 0) )
 	{
+	    std::istringstream iline( line );
 	    double x, y, z, c;
-	    is >> x >> y >> z;
+	    if( !(iline >> x >> y >> z) )
+		return false;
 	    if( format == XYZR && color )
 	    {
-		is >> c;
+		if( !(iline >> c) )
+		    return false;
 		color->push_back( Eigen::Vector3d::Identity() * c / 255.0 );
 	    }
 	
 	    vertices.push_back( Eigen::Vector3d( x,y,z ) );
-	    is.ignore( max_line_length, '\n' );
 	}
-	else
-	    is.ignore( max_line_length, '\n' );
-        // check for eof bit, to avoid a copy of the last sample
-        is.peek();
     }
 
     return true;
@@ -120,15 +123,16 @@ Pointcloud* Pointcloud::importCsv(const std::string& file, FrameNode* fn, int sa
     {
         throw std::runtime_error("Could not open file '" + file + "'.");
     }
-    Pointcloud* pc = new Pointcloud();
-    pc->readText( data, sample, format );
+    Pointcloud::Ptr pc( new Pointcloud() );
+    if( !pc->readText( data, sample, format ) )
+        throw std::runtime_error("Could not parse file '" + file + "'.");
     data.close();
 
     Environment* env = fn->getEnvironment();
-    env->attachItem(pc);
+    env->attachItem(pc.get());
     pc->setFrameNode(fn);
 
-    return pc;
+    return pc.get();
 }
 
 void Pointcloud::copyFrom( Pointcloud* source, bool transform )
-- 
2.43.0


From c645d47f6cf98efd1306a7e1bd786b73f4e7493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 072/193] fix: Pointcloud: copyFrom without transformation
 needs no frame nodes

---
 src/maps/Pointcloud.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index f52b733..bff7e4d 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -140,11 +140,17 @@ void Pointcloud::copyFrom( Pointcloud* source, bool transform )
     // TODO only copies the vertices for now
     clear();
 
+    if( !transform )
+    {
+	vertices = source->vertices;
+	return;
+    }
+
     // get relative transform 
     Transform t = source->getFrameNode()->relativeTransform( getFrameNode() );
     bool needsTransform = !t.isApprox( Transform( Transform::Identity() ) );
 
-    if( !transform || !needsTransform )
+    if( !needsTransform )
     {
 	vertices = source->vertices;
     }
-- 
2.43.0


From da1f77a4ff2a5f35d4d29fea5b21526a4f5c2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 073/193] fix: TriMesh: vertex normals are the mean of the
 normals of all faces

---
 src/maps/TriMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TriMesh.cpp b/src/maps/TriMesh.cpp
index e9028f0..36d3b20 100644
--- a/src/maps/TriMesh.cpp
+++ b/src/maps/TriMesh.cpp
@@ -48,7 +48,7 @@ void TriMesh::calcVertexNormals()
 	Eigen::Vector3d normal = (a[0]-a[1]).cross(a[2]-a[1]).normalized();
 
 	for(int n=0;n<3;n++)
-	    point_normal[tri[n]] = normal;
+	    point_normal[tri[n]] += normal;
     }
     
     // normalize the normals and set vertices without normals to defined value
-- 
2.43.0


From 19eb4923ffb672eaec508b9f49c0cb0427b44d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 074/193] fix: Featurecloud: write the vertices, which are
 expected when reading

---
 src/maps/Featurecloud.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maps/Featurecloud.cpp b/src/maps/Featurecloud.cpp
index 5a48c88..b648f96 100644
--- a/src/maps/Featurecloud.cpp
+++ b/src/maps/Featurecloud.cpp
@@ -4,22 +4,22 @@ using namespace envire;
 ENVIRONMENT_ITEM_DEF( Featurecloud )
 
 Featurecloud::Featurecloud()
-    : descriptorSize(0)
+    : descriptorType(DESCRIPTOR_SURF), descriptorSize(0)
 {
 }
 
 void Featurecloud::serialize(Serialization& so)
 {
-    Pointcloud::serialize( so, false );
+    Pointcloud::serialize( so, true );
 
-    // TODO write map file
+    // TODO write keypoints and descriptors
 }
 
 void Featurecloud::unserialize(Serialization& so)
 {
     Pointcloud::unserialize(so);
     
-    // TODO read map file
+    // TODO read keypoints and descriptors
 }
 
 void Featurecloud::clear() 
-- 
2.43.0


From d960506e43b5291cf7d6b4f5520f485ec693ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 075/193] fix: LaserScan: initialize all properties of the scan

---
 src/maps/LaserScan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 49b8a91..887cd34 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -13,7 +13,7 @@ using namespace std;
 ENVIRONMENT_ITEM_DEF( LaserScan )
 
 LaserScan::LaserScan()
-    : origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), x_forward( false )
+    : delta_psi(0), origin_psi(0), origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), points_per_line(0), x_forward( false )
 {
 }
 
@@ -192,7 +192,7 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
 
 bool LaserScan::readScan( std::istream& is ) 
 {
-    Transform t;
+    Transform t( Transform::Identity() );
     return parseScan( is, t );
 }
 
-- 
2.43.0


From d4fe948a48da33a7869b9ac3d11c9f73b86f61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 076/193] fix: LaserScan: serialize the forward direction

---
 src/maps/LaserScan.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 887cd34..0fec433 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -21,6 +21,8 @@ void LaserScan::serialize(Serialization& so)
 {
     CartesianMap::serialize(so);
 
+    so.write( "x_forward", x_forward );
+
     writeScan( so.getBinaryOutputStream(getMapFileName()) );
 }
 
@@ -37,6 +39,9 @@ void LaserScan::setYForward()
 void LaserScan::unserialize(Serialization& so)
 {
     CartesianMap::unserialize(so);
+
+    if( so.hasKey( "x_forward" ) )
+	so.read( "x_forward", x_forward );
     
     readScan( so.getBinaryInputStream(getMapFileName()) );
 }
-- 
2.43.0


From 4a9f6ef7464fdeb1d4d5295b815a73bab2ef0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 077/193] fix: LaserScan: do not loop forever on scans that
 cannot be parsed

---
 src/maps/LaserScan.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 0fec433..308db5e 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -2,6 +2,7 @@
 
 #include <string>
 #include <fstream>
+#include <limits>
 
 #include <stdexcept>
 #include <iostream>
@@ -159,11 +160,11 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
             scanline_t scanline;
             iline >> scanline.delta_phi;
 
-            while( !iline.eof() ) {
-                int dist;
-                iline >> dist;
+            unsigned int dist;
+            while( iline >> dist )
                 scanline.ranges.push_back( dist );
-            }
+            if( !iline.eof() )
+                throw std::runtime_error("could not parse line statement.");
 
             points_per_line = scanline.ranges.size();
 
@@ -181,11 +182,15 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
 	    if( dphi != scanline.delta_phi )
 		throw std::runtime_error("remission line does not have the same delta_phi value as prior line statement.");
 
-            while( !iline.eof() ) {
-                float rem;
-                iline >> rem;
+            double rem;
+            while( iline >> rem )
+            {
+                if( !(rem >= 0 && rem <= std::numeric_limits<unsigned int>::max()) )
+                    throw std::runtime_error("remission value out of range.");
                 scanline.remissions.push_back( rem );
             }
+            if( !iline.eof() )
+                throw std::runtime_error("could not parse remission statement.");
 
             points_per_line = scanline.remissions.size();
         }
-- 
2.43.0


From e4422863e54d8e6f5f9a9789333ec8e01887d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 078/193] fix: LaserScan: write all digits in writeScan

---
 src/maps/LaserScan.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 308db5e..edbfecc 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -208,6 +208,9 @@ bool LaserScan::readScan( std::istream& is )
 
 bool LaserScan::writeScan( std::ostream& os )
 {
+    // enough digits to read the same values back
+    std::streamsize precision = os.precision( 17 );
+
     os << "delta_psi " << delta_psi << endl;
     os << "origin_psi " << origin_psi << endl;
     os << "origin_phi " << origin_phi << endl;
@@ -236,6 +239,8 @@ bool LaserScan::writeScan( std::ostream& os )
 	}
     }	
 
+    os.precision( precision );
+
     return true;
 }
 
-- 
2.43.0


From 3a8c87bf6660ad5bd1d1afe52486cd022c61ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 079/193] fix: TraversabilityClass: isSet reported placeholders
 as set

---
 src/maps/TraversabilityGrid.cpp | 4 +++-
 src/maps/TraversabilityGrid.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index a632acf..8e46487 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -251,7 +251,9 @@ void TraversabilityGrid::serialize(Serialization& so)
     so.write<size_t>(std::string("drivabilityClassCount"), traversabilityClasses.size());
     for(size_t i = 0; i < traversabilityClasses.size(); i++)
     {
-        so.write(std::string("drivability") + boost::lexical_cast< std::string>((int) i), traversabilityClasses[i].getDrivability());
+        //placeholders stay undefined
+        if(traversabilityClasses[i].isSet())
+            so.write(std::string("drivability") + boost::lexical_cast< std::string>((int) i), traversabilityClasses[i].getDrivability());
     }
     envire::Grid< uint8_t >::serialize(so);
 }
diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index d6a483a..1a024e4 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -33,7 +33,7 @@ public:
      * or if it is an empty placeholder
      * */
     bool isSet() const {
-        return drivability < 0;
+        return drivability >= 0;
     }
 
     /**
-- 
2.43.0


From 18b53592399b72a184f29af67d734c73ca6cbfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 080/193] fix: TraversabilityStatistic: class 255 was out of
 range

---
 src/maps/TraversabilityGrid.cpp | 4 ++--
 src/maps/TraversabilityGrid.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index 8e46487..de528b3 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -102,7 +102,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     TraversabilityStatistic innerStatistic;
     computeStatistic(pose, sizeX, sizeY, innerStatistic);
 
-    for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+    for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
     {
         size_t count;
         double dist;
@@ -124,7 +124,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     if(curClass < 0)
     {
         std::cout << "Pose " << pose.position.transpose() << " sizeY " << sizeY << " sizeX " << sizeX << " Total Count " << innerStatistic.getTotalCount() << std::endl;
-        for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+        for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
         {
             size_t count;
             double dist;
diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 1a024e4..7a22546 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -68,8 +68,8 @@ class TraversabilityStatistic
 public:
     TraversabilityStatistic() : countTotal(0), highestTraversabilityClass(0)
     {
-        minDistance.resize(std::numeric_limits<uint8_t>::max(), std::numeric_limits<double>::max());
-        counts.resize(std::numeric_limits<uint8_t>::max());
+        minDistance.resize(std::numeric_limits<uint8_t>::max() + 1, std::numeric_limits<double>::max());
+        counts.resize(std::numeric_limits<uint8_t>::max() + 1);
     }
 
     /**
-- 
2.43.0


From e05899c4c0226416ac77b73d2a4e55d76d1c9910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 081/193] fix: TraversabilityGrid: copies wrote to the cells of
 the original

---
 src/maps/TraversabilityGrid.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index de528b3..6f3c2b8 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -200,21 +200,14 @@ const TraversabilityClass& TraversabilityGrid::getTraversabilityClass(uint8_t kl
 
 void TraversabilityGrid::setProbabilityArray()
 {
-    if(!probabilityArray)
-    {
-        probabilityArray = &(getData<ArrayType>(PROBABILITY));
-        //hm, why is the resize done here ?
-        probabilityArray->resize(boost::extents[getCellSizeY()][getCellSizeX()]);
-    }
+    //don't keep the array, copies of this grid have other ones
+    probabilityArray = &(getGridData(PROBABILITY));
 }
 
 void TraversabilityGrid::setTraversabilityArray()
 {
-    if(!traversabilityArray)
-    {
-        traversabilityArray = &(getData<ArrayType>(TRAVERSABILITY));
-		traversabilityArray->resize(boost::extents[getCellSizeY()][getCellSizeX()]);
-    }
+    //don't keep the array, copies of this grid have other ones
+    traversabilityArray = &(getGridData(TRAVERSABILITY));
 }
 
 
-- 
2.43.0


From 61ee29127be3b285bf4a566fdf4c5495d9296994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 082/193] fix: TraversabilityGrid: getTraversability of a cell
 with an unknown class

---
 src/maps/TraversabilityGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index 6f3c2b8..fa8b915 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -167,7 +167,7 @@ void TraversabilityGrid::setTraversability(uint8_t klass, size_t x, size_t y)
 const TraversabilityClass& TraversabilityGrid::getTraversability(size_t x, size_t y) const
 {
     setTraversabilityArray();
-    return traversabilityClasses[(*traversabilityArray)[y][x]];
+    return getTraversabilityClass((*traversabilityArray)[y][x]);
 }
 
 bool TraversabilityGrid::registerNewTraversabilityClass(uint8_t& retId, const TraversabilityClass& klass)
-- 
2.43.0


From c51a2dbeada3535089ba6bac3f2dc20df76d1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 083/193] fix: TraversabilityGrid: round and clamp
 probabilities

---
 src/maps/TraversabilityGrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index fa8b915..bbfc7ef 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -227,7 +227,8 @@ void TraversabilityGrid::setProbability(double probability, size_t x, size_t y)
 {
     setProbabilityArray();
 
-    const uint8_t probVal = std::min<uint32_t>(std::numeric_limits< uint8_t >::max(), probability * std::numeric_limits< uint8_t >::max());
+    const double maxVal = std::numeric_limits< uint8_t >::max();
+    const uint8_t probVal = std::min(maxVal, std::max(0.0, probability * maxVal + 0.5));
 
     (*probabilityArray)[y][x] = probVal;
 }
-- 
2.43.0


From c9bc7f093e2b1d6f9b85fe33f84f26873e572740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 084/193] fix: TraversabilityGrid: distances in grids of
 rectangular cells

---
 src/maps/TraversabilityGrid.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index bbfc7ef..eb3b0dd 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -1,6 +1,5 @@
 #include "TraversabilityGrid.hpp"
 #include <boost/bind.hpp>
-#include <tools/RadialLookUpTable.hpp>
 #include <tools/BoxLookUpTable.hpp>
 #include <Eigen/Geometry>
 
@@ -15,7 +14,6 @@ const std::vector<std::string> TraversabilityGrid::bands = { TraversabilityGrid:
 
 class StatisticHelper
 {
-    static RadialLookUpTable *lut;
     static BoxLookUpTable *boxLut;
     const base::Pose2D &pose;
     Eigen::Rotation2D<double> inverseOrientation;
@@ -33,10 +31,6 @@ public:
     inverseOrientation(Eigen::Rotation2D<double>(pose.orientation).inverse()), grid(grid), gridData(grid.getGridData(TraversabilityGrid::TRAVERSABILITY))
     , scaleX(grid.getScaleX()), scaleY(grid.getScaleY())
     {
-        if(!lut)
-            lut = new RadialLookUpTable();
-        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY));
-
         if(!boxLut)
             boxLut = new BoxLookUpTable();
         //note the scale should be higher than the grid scale because
@@ -48,7 +42,9 @@ public:
 
     void addInnerVal(size_t x, size_t y)
     {
-        innerStats->addMeasurement(gridData[y][x], lut->getDistance(x-xCenter, y-yCenter));
+        const double dx = (static_cast<double>(x) - xCenter) * scaleX;
+        const double dy = (static_cast<double>(y) - yCenter) * scaleY;
+        innerStats->addMeasurement(gridData[y][x], sqrt(dx * dx + dy * dy));
     }
 
     void addOuterVal(size_t x, size_t y)
@@ -70,7 +66,6 @@ public:
     }
 };
 
-RadialLookUpTable *StatisticHelper::lut;
 BoxLookUpTable *StatisticHelper::boxLut;
 
 void addVal(size_t x, size_t y, std::vector<uint8_t> &stats, const TraversabilityGrid::ArrayType &gridData)
-- 
2.43.0


From 673afda61557d1a8f9f4b7f37d25750bd57546a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 085/193] fix: TraversabilityGrid: borders narrower than a cell

---
 src/maps/TraversabilityGrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index eb3b0dd..69a2396 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -35,7 +35,8 @@ public:
             boxLut = new BoxLookUpTable();
         //note the scale should be higher than the grid scale because
         //of the roation. Else we get aliasing problems.
-        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2);
+        //cells at the rim of the border may have their center outside of it
+        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2 + scaleX + scaleY);
 
         grid.toGrid(pose.position.x(), pose.position.y(), xCenter, yCenter);
     }
-- 
2.43.0


From 71ec10dfba5e9a02c87227229a85c3ba6a1796ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 086/193] fix: TraversabilityGrowClasses: initialize all
 members

---
 src/operators/TraversabilityGrowClasses.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/TraversabilityGrowClasses.hpp b/src/operators/TraversabilityGrowClasses.hpp
index 27b6d3c..20b4b4c 100644
--- a/src/operators/TraversabilityGrowClasses.hpp
+++ b/src/operators/TraversabilityGrowClasses.hpp
@@ -9,6 +9,8 @@ class TraversabilityGrowClasses : public envire::Operator
 {
     ENVIRONMENT_ITEM( TraversabilityGrowClasses );
 public:
+    TraversabilityGrowClasses() : grid(NULL), gridOut(NULL), radius(0) {}
+
     virtual bool updateAll();
     
     void setRadius(double radius);
-- 
2.43.0


From 4baa6a3845b232c6dba901cd82c2861b22d2bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 087/193] fix: TraversabilityGrowClasses: refuse grids of
 another shape

---
 src/operators/TraversabilityGrowClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 405dc2f..de17f3c 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -31,7 +31,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
     TraversabilityGrid::ArrayType& trDataOut = mapOut.getGridData(TraversabilityGrid::TRAVERSABILITY);
     TraversabilityGrid::ArrayType& probDataOut = mapOut.getGridData(TraversabilityGrid::PROBABILITY);
 
-    if(trDataIn.num_elements() != trDataOut.num_elements())
+    if(mapIn.getCellSizeX() != mapOut.getCellSizeX() || mapIn.getCellSizeY() != mapOut.getCellSizeY())
         throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
 
     memcpy(trDataOut.data(), trDataIn.data(), sizeof(uint8_t) * trDataIn.num_elements());
-- 
2.43.0


From 891efaa944dd81d8d9187acdc2916b677bc6e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:38 +0000
Subject: [PATCH 088/193] fix: TraversabilityGrowClasses: cells without
 registered class

---
 src/operators/TraversabilityGrowClasses.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index de17f3c..b4f957a 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -61,7 +61,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
                 continue;
             
             uint8_t classNumber = trDataIn[y][x];
-            TraversabilityClass curClass(classes[classNumber]);
+            TraversabilityClass curClass(mapIn.getTraversabilityClass(classNumber));
 
             //grow all object in the radius
             for( int oy = -wy; oy <= wy; ++oy )
@@ -74,9 +74,8 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
                             && tx >= 0 && tx < (int)mapIn.getCellSizeX()
                             && ty >= 0 && ty < (int)mapIn.getCellSizeY() )
                     {
-                        TraversabilityClass otherClass(classes[trDataOut[ty][tx]]);
                         if((mapOut.getProbability(tx, ty) <= 0.0001)
-                           || (otherClass.getDrivability() > curClass.getDrivability()))
+                           || (mapIn.getTraversabilityClass(trDataOut[ty][tx]).getDrivability() > curClass.getDrivability()))
                         {
                             trDataOut[ty][tx] = classNumber;
                             mapOut.setProbability(curProbability, tx, ty);
-- 
2.43.0


From 3ecce93e6eacd50d47fd432262228cac914bf359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 089/193] fix: SimpleTraversability: serialize the obstacle
 clearance

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 115cf41..bcc5f60 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -52,6 +52,7 @@ void SimpleTraversability::serialize(envire::Serialization& so)
     so.write("class_count", conf.class_count);
     so.write("ground_clearance", conf.ground_clearance);
     so.write("min_width", conf.min_width);
+    so.write("obstacle_clearance", conf.obstacle_clearance);
     so.write("output_band", output_band);
 }
 
@@ -73,6 +74,8 @@ void SimpleTraversability::unserialize(envire::Serialization& so)
     so.read<int>("class_count", conf.class_count);
     so.read<double>("ground_clearance", conf.ground_clearance);
     so.read<double>("min_width", conf.min_width);
+    if (so.hasKey("obstacle_clearance"))
+        so.read<double>("obstacle_clearance", conf.obstacle_clearance);
     so.read<std::string>("output_band", output_band);
 }
 
-- 
2.43.0


From 17a7ed10c9068109d0f0df8fec1fec39bd6ad939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 090/193] fix: SimpleTraversability: refuse absent inputs and
 inputs of another size

---
 src/operators/SimpleTraversability.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index bcc5f60..794119c 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -143,6 +143,10 @@ bool SimpleTraversability::updateAll()
         if (input_layers_id[i] != "" && !input_bands[i].empty())
         {
             input_layers[i] = getEnvironment()->getItem< Grid<float> >(input_layers_id[i]).get();
+            if (!input_layers[i])
+                throw std::runtime_error("SimpleTraversability: input layer " + input_layers_id[i] + " does not exist");
+            if (input_layers[i]->getCellSizeX() != output_layer->getCellSizeX() || input_layers[i]->getCellSizeY() != output_layer->getCellSizeY())
+                throw std::runtime_error("SimpleTraversability: input and output have different sizes");
             has_data = true;
             inputs[i] = &(input_layers[i]->getGridData(input_bands[i]));
 
-- 
2.43.0


From 6ba8bac6b128c0848fd28ed8da651e859fc7d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 091/193] fix: SimpleTraversability: forget the results of the
 last update

---
 src/operators/SimpleTraversability.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 794119c..22adcbe 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -175,6 +175,7 @@ bool SimpleTraversability::updateAll()
             // if one of the available input bands has no information
             double values[INPUT_COUNT];
             bool has_value[INPUT_COUNT];
+            result[y][x] = CLASS_UNKNOWN;
             for (int band_idx = 0; band_idx < INPUT_COUNT; ++band_idx)
             {
                 has_value[band_idx] = false;
-- 
2.43.0


From da0162189503ca55ea63e69787a3ea8d3c173698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 092/193] fix: SimpleTraversability: less than five classes

---
 src/operators/SimpleTraversability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 22adcbe..0a639c7 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -267,8 +267,8 @@ bool SimpleTraversability::updateAll()
         }
     }
 
-    // Traversability class 7 contains the mean driveability (0.55).
-    double mean_driveability = output_layer->getTraversabilityClass(7).getDrivability();
+    // mean driveability of the traversable classes (0.55 for ten classes)
+    double mean_driveability = (1.0 / conf.class_count + 1.0) / 2.0;
     uint8_t mean_class_value = counter == 0 ? 0 : sum_classes / counter + 0.5;
     
     // If the map is completely unkown or full with obstacles, 
-- 
2.43.0


From 37fb50cd0dbc43a8c870daa6995cc7042b1b56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 093/193] fix: SimpleTraversability: post processing of the
 given band

---
 src/operators/SimpleTraversability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 0a639c7..38ebfbe 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -396,7 +396,7 @@ void SimpleTraversability::growObstacles(OutputLayer& map, std::string const& ba
 
     OutputLayer::ArrayType& orig_data = band_name.empty() ?
         map.getGridData() :
-        map.getGridData(output_band);
+        map.getGridData(band_name);
 
     OutputLayer::ArrayType data( orig_data );
     TraversabilityGrid::ArrayType &probabilityArray(map.getGridData(TraversabilityGrid::PROBABILITY));
@@ -459,7 +459,7 @@ void SimpleTraversability::closeNarrowPassages(SimpleTraversability::OutputLayer
 
     OutputLayer::ArrayType& data = band_name.empty() ?
         map.getGridData() :
-        map.getGridData(output_band);
+        map.getGridData(band_name);
     for (unsigned int y = 0; y < map.getHeight(); ++y)
     {
         for (unsigned int x = 0; x < map.getWidth(); ++x)
-- 
2.43.0


From d0841bf2bdf934c34509736bca1ef7b1ddd69fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 094/193] fix: SimpleTraversability: set the probability of
 grown obstacles

---
 src/operators/SimpleTraversability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 38ebfbe..7acd5df 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -421,7 +421,7 @@ void SimpleTraversability::growObstacles(OutputLayer& map, std::string const& ba
 				&& ty >= 0 && ty < (int)map.getHeight() )
                         {
 			    data[ty][tx] = CLASS_OBSTACLE;
-                            probabilityArray[y][x] = std::numeric_limits< uint8_t >::max();
+                            probabilityArray[ty][tx] = std::numeric_limits< uint8_t >::max();
                         }
 		    }
 		}
-- 
2.43.0


From 26e0c1176a2b349c8426a83461c7b85a5daa02ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 095/193] fix: TraversabilityGrassfire: refuse an output of
 another size

---
 src/operators/TraversabilityGrassfire.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 396aa5f..7211c7a 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -230,7 +230,6 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
     //make shure temp maps have correct size
     bestPatchMap.resize(boost::extents[mlsGrid->getCellSizeY()][mlsGrid->getCellSizeX()]);
     visited.resize(boost::extents[mlsGrid->getCellSizeY()][mlsGrid->getCellSizeX()]);
-    trData->resize(boost::extents[mlsGrid->getCellSizeY()][mlsGrid->getCellSizeX()]);
 
     //fill them with defautl values
     SurfacePatch *emptyPatch = NULL;
@@ -431,7 +430,9 @@ bool envire::TraversabilityGrassfire::updateAll()
     if (!trGrid)
         throw std::runtime_error("TraversabilityGrassfire: no output band set");
 
-    
+    if(mlsGrid->getCellSizeX() != trGrid->getCellSizeX() || mlsGrid->getCellSizeY() != trGrid->getCellSizeY())
+        throw std::runtime_error("TraversabilityGrassfire: input and output have different sizes");
+
     trData = &(trGrid->getGridData(TraversabilityGrid::TRAVERSABILITY));
 
     //register classes in traversability map
-- 
2.43.0


From 4d8646a12b048816ea182312c0ae150f54e5f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 096/193] fix: TraversabilityGrassfire: start height in the
 frame of the map

---
 src/operators/TraversabilityGrassfire.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 7211c7a..b2efe5e 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -223,7 +223,9 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
 {
     size_t startX;
     size_t startY;
-    if(!mlsGrid->toGrid(startPos, startX, startY, mlsGrid->getEnvironment()->getRootNode()))
+    //the heights of the patches are given in the frame of the map
+    startPos = mlsGrid->toMap(startPos, *mlsGrid->getEnvironment()->getRootNode());
+    if(!mlsGrid->toGrid(startPos, startX, startY))
         return false;
 
     
-- 
2.43.0


From 18d4a43526e13eb806f0c2eef9a122c1c8c86efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 097/193] fix: TraversabilityGrassfire: distance of the start
 position to a patch

---
 src/operators/TraversabilityGrassfire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index b2efe5e..9c75e70 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -269,7 +269,7 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
                     SurfacePatch *curPatch = getNearestPatchWhereRobotFits(newX, newY, startPos.z(), isObstacle);
                     if(curPatch)
                     {
-                        double curHeightDiff = fabs(startPos.z() - curPatch->getMean() + curPatch->getStdev());
+                        double curHeightDiff = fabs(startPos.z() - (curPatch->getMean() + curPatch->getStdev()));
                         if(curHeightDiff < bestHeightDiff)
                         {
                             bestMatchingPatch = curPatch;
-- 
2.43.0


From c57e29888837d4f37ccea6b5feb9d2ddd2eb001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 098/193] fix: ElevationGrid: get(Position) took cell indices
 as coordinates

---
 src/maps/ElevationGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.hpp b/src/maps/ElevationGrid.hpp
index 5d04039..47f0485 100644
--- a/src/maps/ElevationGrid.hpp
+++ b/src/maps/ElevationGrid.hpp
@@ -36,10 +36,10 @@ namespace envire
         { return Grid<double>::get(ELEVATION, x, y); }
 
         double& get( const Position& pos )
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return Grid<double>::getFromRaster(ELEVATION, pos.x, pos.y); }
 
         double get( const Position& pos ) const
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return Grid<double>::getFromRaster(ELEVATION, pos.x, pos.y); }
 
         Eigen::Vector3d getNormal( const Position& pos ) const;
 
-- 
2.43.0


From 23f4b79957eaf4c756898328af604ba4d61c0390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 099/193] fix: ElevationGrid: normals at the border of the grid

---
 src/maps/ElevationGrid.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.cpp b/src/maps/ElevationGrid.cpp
index 10b00d9..2fd550d 100644
--- a/src/maps/ElevationGrid.cpp
+++ b/src/maps/ElevationGrid.cpp
@@ -16,8 +16,16 @@ Eigen::Vector3d envire::ElevationGrid::getNormal(const envire::GridBase::Positio
     size_t m = pos.x, n = pos.y;
 
     const ArrayType &grid( getGridData( ELEVATION ) );
-    double slope_x = (grid[n][m-1] - grid[n][m+1]) / (getScaleX()*2.0);
-    double slope_y = (grid[n-1][m] - grid[n+1][m]) / (getScaleY()*2.0);
+
+    // use the cell itself in place of neighbours which are not in the grid
+    const size_t left = m > 0 ? m-1 : m, right = m+1 < getCellSizeX() ? m+1 : m;
+    const size_t up = n > 0 ? n-1 : n, down = n+1 < getCellSizeY() ? n+1 : n;
+
+    double slope_x = 0, slope_y = 0;
+    if( left < right )
+        slope_x = (grid[n][left] - grid[n][right]) / (getScaleX()*(right - left));
+    if( up < down )
+        slope_y = (grid[up][m] - grid[down][m]) / (getScaleY()*(down - up));
 
     return Eigen::Vector3d( slope_x, slope_y, 1.0 ).normalized();
 }
-- 
2.43.0


From 5c66bfabac62c790477fa2d602d6db831cf0d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 100/193] fix: GridAccess, MLSAccess: consider all grids

---
 src/tools/GridAccess.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/tools/GridAccess.cpp b/src/tools/GridAccess.cpp
index 6165fb9..48d27b0 100644
--- a/src/tools/GridAccess.cpp
+++ b/src/tools/GridAccess.cpp
@@ -42,11 +42,6 @@ struct GridAccess::GridAccessImpl
 	{
 	    if( evalGridPoint( position ) )
 		return true;
-
-	    // this is a shortcut, which will only allow one
-	    // grid to ever be evaluated. 
-	    // TODO: remove this 
-	    return false;
 	}
 
 	if( grids.size() == 0 )
@@ -212,11 +207,6 @@ struct MLSAccess::MLSAccessImpl
 	    zpos = v.z();
 	    if( grid->get( (const Eigen::Vector2d&)v.head<2>(), zpos, zstdev ) )
 		return true;
-
-	    // this is a shortcut, which will only allow one
-	    // grid to ever be evaluated. 
-	    // TODO: remove this 
-	    return false;
 	}
 
 	if( grids.size() == 0 )
-- 
2.43.0


From 110316528df1abf74b479791d98085926f0655b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 101/193] fix: PointcloudAccess: height differences were
 truncated to integers

---
 src/tools/GridAccess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/GridAccess.cpp b/src/tools/GridAccess.cpp
index 48d27b0..900431e 100644
--- a/src/tools/GridAccess.cpp
+++ b/src/tools/GridAccess.cpp
@@ -4,6 +4,7 @@
 #include "maps/Pointcloud.hpp"
 #include "maps/MLSGrid.hpp"
 #include <Eigen/LU>
+#include <cmath>
 
 #include<kdtree++/kdtree.hpp>
 
@@ -140,7 +141,7 @@ struct PointcloudAccess::PointcloudAccessImpl
 	for(std::vector<TreeNode>::iterator it=nodes.begin();it!=nodes.end();it++)
 	{
 	    TreeNode &node(*it);
-	    if( abs(node.point.z() - zpos) < zthresh )
+	    if( std::abs(node.point.z() - zpos) < zthresh )
 	    {
 		// for now return the first node found in range
 		position = node.point;
-- 
2.43.0


From c4305f95ac9ca0ab9349ae9b4b3be0803dd73a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:56 +0000
Subject: [PATCH 102/193] fix: MLSAccess: give the height in the frame of the
 position

---
 src/tools/GridAccess.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/tools/GridAccess.cpp b/src/tools/GridAccess.cpp
index 900431e..2eef5e1 100644
--- a/src/tools/GridAccess.cpp
+++ b/src/tools/GridAccess.cpp
@@ -198,15 +198,24 @@ struct MLSAccess::MLSAccessImpl
 
     Transform t;
 
+    bool evalGridPoint(const Eigen::Vector3d& position, double& zpos, double& zstdev)
+    {
+	Eigen::Vector3d v = t * position;
+	if( !grid->get( v, v.z(), zstdev ) )
+	    return false;
+
+	// the height is given in the same frame as the position
+	zpos = (t.inverse( Eigen::Isometry ) * v).z();
+	return true;
+    }
+
     bool getElevation(Eigen::Vector3d position, double& zpos, double& zstdev  )
     {
 	// to make this fast, we store the last grid and transform
 	// and see try that one first on the next call
 	if( grid )
 	{
-	    Eigen::Vector3d v = t * position;
-	    zpos = v.z();
-	    if( grid->get( (const Eigen::Vector2d&)v.head<2>(), zpos, zstdev ) )
+	    if( evalGridPoint( position, zpos, zstdev ) )
 		return true;
 	}
 
@@ -224,9 +233,7 @@ struct MLSAccess::MLSAccessImpl
 	    grid = lgrid;
 	    t = lt;
 
-	    Eigen::Vector3d v = t * position;
-	    zpos = v.z();
-	    if( grid->get( (const Eigen::Vector2d&)(v).head<2>(), zpos, zstdev ) )
+	    if( evalGridPoint( position, zpos, zstdev ) )
 		return true;
 	}
 
-- 
2.43.0


From f79d5510809f2101f020aa1e0aba85927f6d68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 103/193] fix: MLSGrid: sampling distance in
 projectSplineOnSurface

---
 src/maps/MLSGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index da34b87..6f5b2d8 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -110,7 +110,7 @@ base::geometry::Spline3 MLSGrid::projectSplineOnSurface(double startHeight, cons
 {
     //sample the spline in a resolution four times higher than the
     //cell size.
-    std::vector<base::Vector3d> points = spline.sample(this->getCellSizeX()/4.0);
+    std::vector<base::Vector3d> points = spline.sample(std::min(getScaleX(), getScaleY())/4.0);
     double lastHeight = startHeight;
     size_t x, y;
     for(std::vector<base::Vector3d>::iterator it = points.begin(); it != points.end(); it++)
-- 
2.43.0


From e7d11c2ab9b48a6276bff560a263bd62bc2b1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:17 +0000
Subject: [PATCH 104/193] fix: TraversabilityGrowClasses,
 TraversabilityGrassfire: report success of an update

---
 src/operators/TraversabilityGrassfire.cpp   | 2 +-
 src/operators/TraversabilityGrowClasses.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 9c75e70..e9f9b64 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -468,5 +468,5 @@ bool envire::TraversabilityGrassfire::updateAll()
     std::cout << "totalCnt " << totalCnt << std::endl;
     std::cout << "drivable " << drivable << std::endl;*/
         
-    return envire::Operator::updateAll();
+    return true;
 }
diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index b4f957a..716acf9 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -99,5 +99,5 @@ bool envire::TraversabilityGrowClasses::updateAll()
 
     growTerrains(*grid, *gridOut);
     
-    return envire::Operator::updateAll();
+    return true;
 }
-- 
2.43.0


From 717e4515c1ba06614457ab57956b387493f79b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 105/193] fix: VoxelTraversal: rays which do not start in the
 grid or are vertical

---
 src/tools/VoxelTraversal.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tools/VoxelTraversal.hpp b/src/tools/VoxelTraversal.hpp
index 33194f1..aea5ada 100644
--- a/src/tools/VoxelTraversal.hpp
+++ b/src/tools/VoxelTraversal.hpp
@@ -43,6 +43,12 @@ public:
 	envire::GridBase::Position pos;
 	double xmod, ymod;
 	valid = grid.toGrid( orig.x(), orig.y(), pos.x, pos.y, xmod, ymod );
+	// a ray which doesn't start in the grid, or doesn't move on the plane,
+	// never gets to another cell
+	if( dir.norm() == 0 )
+	    valid = false;
+	if( !valid )
+	    return;
 	cx = pos.x;
 	cy = pos.y;
 
@@ -65,6 +71,9 @@ public:
 
     bool step( GridBase::Position &pos )
     {
+	if( !valid )
+	    return false;
+
 	// advance to next cell
 	if( maxx < maxy )
 	{
-- 
2.43.0


From 90033504fde0705e2385c29cadc82d5f7729b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 106/193] fix: VoxelTraversal: distance to the first cell, and
 rays parallel to an axis

---
 src/tools/VoxelTraversal.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tools/VoxelTraversal.hpp b/src/tools/VoxelTraversal.hpp
index aea5ada..de87fc9 100644
--- a/src/tools/VoxelTraversal.hpp
+++ b/src/tools/VoxelTraversal.hpp
@@ -1,6 +1,9 @@
 #ifndef ENVIRE_TOOLS_VOXELTRAVERSAL_HPP__
 #define ENVIRE_TOOLS_VOXELTRAVERSAL_HPP__
 
+#include <envire/maps/GridBase.hpp>
+#include <limits>
+
 namespace envire
 {
 
@@ -56,12 +59,17 @@ public:
 	stepy = dir.y() > 0 ? 1 : -1;
 
 	// this is the distance along the ray until a new cell is reached
-	deltax = (dir / dir.x() * grid.getScaleX()).norm();
-	deltay = (dir / dir.y() * grid.getScaleY()).norm();
-
-	// starting distance until a new cell is reached.
-	maxx = deltax * xmod;
-	maxy = deltay * ymod; 
+	// rays parallel to an axis never get to a new cell along the other one
+	const double inf = std::numeric_limits<double>::infinity();
+	deltax = dir.x() == 0 ? inf : (dir / dir.x() * grid.getScaleX()).norm();
+	deltay = dir.y() == 0 ? inf : (dir / dir.y() * grid.getScaleY()).norm();
+
+	// starting distance until a new cell is reached. This is the part of
+	// the cell which is still ahead in the direction of the ray.
+	const double restx = stepx > 0 ? grid.getScaleX() - xmod : xmod;
+	const double resty = stepy > 0 ? grid.getScaleY() - ymod : ymod;
+	maxx = dir.x() == 0 ? inf : deltax * restx / grid.getScaleX();
+	maxy = dir.y() == 0 ? inf : deltay * resty / grid.getScaleY();
     }
 
     Eigen::Vector3d getPosition()
-- 
2.43.0


From e5be7be850e134672bfe11718d2f72e3f83ba92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 107/193] fix: GridIllumination: throw if no output is set

---
 src/operators/GridIllumination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index d3b9ed6..003a406 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -15,6 +15,8 @@ bool GridIllumination::updateAll()
 {
     // get output grid
     ElevationGrid* grid = getOutput<envire::ElevationGrid*>();
+    if( !grid )
+	throw std::runtime_error("GridIllumination: no output set");
 
     // and get the array
     ElevationGrid::ArrayType &harray = grid->getGridData( ElevationGrid::ELEVATION_MAX );
-- 
2.43.0


From 7cce6c3598623f4168390f8897fe5c1407af5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 108/193] fix: GridIllumination: rays parallel to an axis

---
 src/operators/GridIllumination.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index 003a406..5e3b5c8 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -1,5 +1,6 @@
 #include "GridIllumination.hpp"
 #include <envire/maps/ElevationGrid.hpp>
+#include <limits>
 
 using namespace envire;
 using namespace Eigen;
@@ -57,9 +58,10 @@ bool GridIllumination::updateAll()
 		stepx = dir.x() > 0 ? 1 : -1,
 		stepy = dir.y() > 0 ? 1 : -1;
 	    // this is the distance along the ray until a new cell is reached
+	    // rays parallel to an axis never get to a new cell along the other one
 	    const double 
-		deltax = (dir / dir.x() * grid->getScaleX()).norm(),
-		deltay = (dir / dir.y() * grid->getScaleY()).norm();
+		deltax = dir.x() == 0 ? std::numeric_limits<double>::infinity() : (dir / dir.x() * grid->getScaleX()).norm(),
+		deltay = dir.y() == 0 ? std::numeric_limits<double>::infinity() : (dir / dir.y() * grid->getScaleY()).norm();
 	    // starting distance until a new cell is reached.
 	    // since we start in the center of the cell, this is half the 
 	    // deltax, and deltay
-- 
2.43.0


From d9fe190182ffa305fd7531ef9f07faa85726e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 109/193] fix: GridIllumination: stop at the light source

---
 src/operators/GridIllumination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index 5e3b5c8..1b517a6 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -70,7 +70,8 @@ bool GridIllumination::updateAll()
 		maxy = deltay * 0.5; 
 
 	    double maxLight = 0.0; 
-	    while( true )
+	    // only what is between the cell and the light casts a shadow
+	    while( std::min( maxx, maxy ) < dir.norm() )
 	    {
 		// advance to next cell
 		if( maxx < maxy )
-- 
2.43.0


From cf94c9bbae79340a200ef2abb1d70366cbd3d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 110/193] fix: MLSProjection: do not add data to the input

---
 src/operators/MLSProjection.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 461598f..271ac36 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -176,19 +176,23 @@ void MLSProjection::projectPointcloud( envire::MultiLevelSurfaceGrid* grid, envi
     // note: the grid might actually be a local copy and not attached to an
     // environment
     std::vector<Eigen::Vector3d>& points(pc->vertices);
-    std::vector<double>& uncertainty(pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE));
+    // note: getVertexData would create the variance, if there is none
+    std::vector<double>* uncertainty = NULL;
+    if( pc->hasData( Pointcloud::VERTEX_VARIANCE ) )
+	uncertainty = &pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE);
     std::vector<Eigen::Vector3d> *color = NULL;
     if( pc->hasData( Pointcloud::VERTEX_COLOR ) )
     {
 	color = &pc->getVertexData<Eigen::Vector3d>(Pointcloud::VERTEX_COLOR);
-	assert( color->size() == points.size() );
+	if( color->size() != points.size() )
+	    throw std::runtime_error("MLSProjection: number of colors and points differ.");
 	grid->setHasCellColor( true );
     }
-    bool hasUncertainty = points.size() == uncertainty.size();
+    bool hasUncertainty = uncertainty && points.size() == uncertainty->size();
 
     for(size_t i=0;i<points.size();i++)
     {
-	const double p_var = hasUncertainty? uncertainty[i] : defaultUncertainty;
+	const double p_var = hasUncertainty? (*uncertainty)[i] : defaultUncertainty;
 	Point p = C_m2g.getTransform() * points[i];
 
 	const Eigen::Vector3d &mean( p );
-- 
2.43.0


From 5ca4328ffed60c14256ce731edefe7f5cc941356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 111/193] fix: MLSProjection: throw if an input is not a
 pointcloud

---
 src/operators/MLSProjection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 271ac36..afdbcb4 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -225,6 +225,8 @@ bool MLSProjection::updateAll()
     for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ )
     {
 	Pointcloud* mesh = dynamic_cast<envire::Pointcloud*>(*it);
+	if( !mesh )
+	    throw std::runtime_error("MLSProjection: input is not a pointcloud.");
 
 	C_m2g = env->relativeTransformWithUncertainty(
 	    mesh->getFrameNode(), grid->getFrameNode() );
-- 
2.43.0


From 06c90d97cf4de8baf0710b167c4b10d2f4d179da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 112/193] fix: MLSProjection: negative information in an empty
 grid

---
 src/operators/MLSProjection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index afdbcb4..9a202e6 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -54,9 +54,9 @@ void MLSProjection::unsetAreaOfInterest()
 void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceGrid* grid, envire::Pointcloud* pc )
 {
     // create a new grid with the same dimensions in case the given grid is not
-    // empty
+    // empty, or gets more cells while going through the touched cells
     boost::intrusive_ptr<envire::MultiLevelSurfaceGrid> t_grid;
-    if( !grid->empty() )
+    if( !grid->empty() || m_negativeInformation )
     {
 	t_grid = new MultiLevelSurfaceGrid( 
 		grid->getWidth(), grid->getHeight(), grid->getScaleX(), grid->getScaleY(), grid->getOffsetX(), grid->getOffsetY() );
-- 
2.43.0


From c46d8478b53d3c32dc34cb094a15ddae68b400e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 113/193] fix: MergeMLS: throw if there is no output

---
 src/operators/MergeMLS.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index f27cdab..ac4aa6f 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -7,8 +7,10 @@ ENVIRONMENT_ITEM_DEF( MergeMLS )
 
 bool MergeMLS::updateAll()
 {
-    MLSGrid* output = static_cast<envire::MLSGrid*>(*env->getOutputs(this).begin());
-    assert(output);
+    std::list<Layer*> outputs = env->getOutputs(this);
+    MLSGrid* output = outputs.empty() ? NULL : dynamic_cast<envire::MLSGrid*>(*outputs.begin());
+    if( !output )
+	throw std::runtime_error("MergeMLS: no output MLSGrid has been set");
 
     // get the maps from the input
     // inputs can either be grids directly, or maps which
-- 
2.43.0


From 810419df322c349d85f649e29098d0ef6552ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 114/193] fix: MergeMLS: maps with children which are not grids

---
 src/operators/MergeMLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index ac4aa6f..999405f 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -31,8 +31,8 @@ bool MergeMLS::updateAll()
 		for( std::list<Layer*>::iterator it2 = children.begin(); it2 != children.end(); it2++ )
 		{
 		    MLSGrid* grid = dynamic_cast<envire::MLSGrid*>(*it2);
-		    assert( grid );
-		    grids.push_back( grid );
+		    if( grid )
+			grids.push_back( grid );
 		}
 	    }
 	    else
-- 
2.43.0


From fcb3026dd60526e3fc64c6feccad0eea713cf2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 115/193] fix: MergeMLS: heights of patches in the output frame

---
 src/operators/MergeMLS.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index 999405f..3dcdbb7 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -69,7 +69,7 @@ bool MergeMLS::updateAll()
 			MLSGrid::Position t_pos;
 			if( output->toGrid( target_pos.head<2>(), t_pos ) )
 			{
-			    p.mean = target_pos.z();
+			    p.shift( target_pos.z() - p.mean );
 			    output->updateCell( t_pos.x, t_pos.y, p );
 			}
 		    }
@@ -109,6 +109,7 @@ bool MergeMLS::updateAll()
 
 		    // transform into target frame
 		    Eigen::Vector3d src_pos = transforms[t] * pos;
+		    Transform C_m2g( transforms[t].inverse( Eigen::Isometry ) );
 
 		    // see if available in target grid
 		    MLSGrid::Position s_pos;
@@ -117,7 +118,12 @@ bool MergeMLS::updateAll()
 			for( MLSGrid::iterator cit = input->beginCell(s_pos.x, s_pos.y); cit != input->endCell(); cit++ )
 			{
 			    MLSGrid::SurfacePatch p( *cit );
-			    p.mean += src_pos.z();
+			    
+			    // transform the patch into the target frame
+			    Eigen::Vector3d target_pos = C_m2g * 
+				Eigen::Vector3d( src_pos.x(), src_pos.y(), p.mean );
+			    p.shift( target_pos.z() - p.mean );
+
 
 			    output->updateCell( m, n, p );
 			}
-- 
2.43.0


From 7c4bb29789c2d01235bd1d8f9816c0f2dd1affdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:48 +0000
Subject: [PATCH 116/193] fix: MLSProjection: negative information on rising
 lines

---
 src/operators/MLSProjection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 9a202e6..4f4b314 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -154,8 +154,10 @@ void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceG
 		    else if( ydiff )
 			factor = (int)(line_cells[li].y - origin.y) / (double)ydiff;
 
-		    const double p_height = fabs((cit->height + height) * factor);
-		    const double z_mean = cit->mean + height * factor + plane_z * (1.0 - factor);
+		    // the mean is the top of the patch, also if the line rises 
+		    // towards the cell (height < 0)
+		    const double p_height = (cit->height + fabs(height)) * factor;
+		    const double z_mean = cit->mean + std::max(height, 0.0) * factor + plane_z * (1.0 - factor);
 		    const double z_stdev = cit->stdev * factor; 
 
 		    MLSGrid::SurfacePatch np( z_mean, z_stdev, p_height, MLSGrid::SurfacePatch::NEGATIVE );
-- 
2.43.0


From 9b6a65163ea1b2904dedabf58dd20929d3947f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 117/193] fix: MLSSlope: initialize all parameters

---
 src/operators/MLSSlope.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.hpp b/src/operators/MLSSlope.hpp
index 3ff5d78..e741cd4 100644
--- a/src/operators/MLSSlope.hpp
+++ b/src/operators/MLSSlope.hpp
@@ -33,12 +33,15 @@ namespace envire
             , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev) 
             : corrected_step_threshold(corrected_step_threshold)
-            , use_stddev(use_stddev) {}
+            , use_stddev(use_stddev)
+            , required_measurements_per_patch(0)
+            , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev, 
                  uint32_t required_measurements_per_patch) 
             : corrected_step_threshold(corrected_step_threshold)
             , use_stddev(use_stddev)
-            , required_measurements_per_patch(required_measurements_per_patch) {}
+            , required_measurements_per_patch(required_measurements_per_patch)
+            , window_size(1) {}
 	void serialize( Serialization &so ) { Operator::serialize( so ) ;}
 	void unserialize( Serialization &so ) { Operator::unserialize( so ) ;}
 
-- 
2.43.0


From 5d5b3dcc0a587e011bc004e00204633a3108e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 118/193] fix: MLSSlope, MLSToGrid: refuse outputs that differ
 in one dimension

---
 src/operators/MLSSlope.cpp  | 4 ++--
 src/operators/MLSToGrid.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 0028e7e..e502b09 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -73,9 +73,9 @@ bool MLSSlope::updateAll()
     Grid<float>& travGrid = *env->getOutput< Grid<float>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
diff --git a/src/operators/MLSToGrid.cpp b/src/operators/MLSToGrid.cpp
index f1bc13e..62569d4 100644
--- a/src/operators/MLSToGrid.cpp
+++ b/src/operators/MLSToGrid.cpp
@@ -36,9 +36,9 @@ bool MLSToGrid::updateAll()
     Grid<double>& travGrid = *env->getOutput< Grid<double>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From a4a43097090770117fbc06b910a9da0af81dd412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 119/193] fix: MLSSlope: steps to the first and last row

---
 src/operators/MLSSlope.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index e502b09..264e1be 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -129,7 +129,8 @@ bool MLSSlope::updateAll()
 
     for(size_t x=1;x<width;x++)
     {
-        for(size_t y=1;y<height-1;y++)
+        // the first and last row have no results, but are neighbours of others
+        for(size_t y=0;y<height;y++)
         {
             MLSGrid::const_iterator this_cell = 
                 std::max_element( mls.beginCell(x,y), mls.endCell() );
@@ -146,16 +147,19 @@ bool MLSSlope::updateAll()
                 continue;
             }
             
-            updateGradient(mls, use_stddev, angles, diffs, counts, scaley,
+            if (y + 1 < height)
+                updateGradient(mls, use_stddev, angles, diffs, counts, scaley,
                     BOTTOM_CENTER, x, y, TOP_CENTER, x, y + 1,
                     this_cell, required_measurements_per_patch);
-            updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
+            if (y > 0)
+                updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
                     TOP_RIGHT, x, y, BOTTOM_LEFT, x - 1, y - 1,
                     this_cell, required_measurements_per_patch);
             updateGradient(mls, use_stddev, angles, diffs, counts, scalex,
                     CENTER_RIGHT, x, y, CENTER_LEFT, x - 1, y,
                     this_cell, required_measurements_per_patch);
-            updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
+            if (y + 1 < height)
+                updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
                     BOTTOM_RIGHT, x, y, TOP_LEFT, x - 1, y + 1,
                     this_cell, required_measurements_per_patch);            
               
-- 
2.43.0


From 1dd02da9ca59f738ce55bd3a7ce25aba0ce4e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 120/193] fix: MLSToPointCloud: give the points in the frame of
 the pointcloud

---
 src/operators/MLSToPointCloud.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/operators/MLSToPointCloud.cpp b/src/operators/MLSToPointCloud.cpp
index afe2ec9..a8af38f 100644
--- a/src/operators/MLSToPointCloud.cpp
+++ b/src/operators/MLSToPointCloud.cpp
@@ -34,6 +34,9 @@ bool MLSToPointCloud::updateAll()
     
     pointcloud->clear();
 
+    // the points are given in the frame of the pointcloud
+    Transform C_m2p = env->relativeTransform(mls_grid, pointcloud);
+
     float vertical_distance = (mls_grid->getScaleX() + mls_grid->getScaleY()) * 0.5;
     if(vertical_distance <= 0.0)
 	vertical_distance = 0.1;
@@ -46,13 +49,12 @@ bool MLSToPointCloud::updateAll()
 	    for( MLSGrid::iterator cit = mls_grid->beginCell(x,y); cit != mls_grid->endCell(); cit++ )
 	    {
 		MLSGrid::SurfacePatch p( *cit );
-		Eigen::Vector3d cellPosWorld = mls_grid->fromGrid(x, y, mls_grid->getEnvironment()->getRootNode());
-		Eigen::Vector3d point(cellPosWorld);
+		Eigen::Vector3d point(mls_grid->fromGrid(x, y));
 		
 		if(p.isHorizontal())
 		{
-		    point[2] = cellPosWorld.z() + p.mean;
-		    pointcloud->vertices.push_back(point);
+		    point[2] = p.mean;
+		    pointcloud->vertices.push_back(C_m2p * point);
 		    
 		}
 		else if(p.isVertical())
@@ -61,8 +63,8 @@ bool MLSToPointCloud::updateAll()
 		    float max_z = (float)p.getMaxZ(0);
 		    for(float z = min_z; z <= max_z; z += vertical_distance)
 		    {
-			point[2] = cellPosWorld.z() + z;
-			pointcloud->vertices.push_back(point);
+			point[2] = z;
+			pointcloud->vertices.push_back(C_m2p * point);
 		    }
 		}
 	    }
-- 
2.43.0


From 085139499301201a1f86de9af1a963b7645357af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 121/193] fix: GridFloatToMLS: transform from the grid to the
 mls

---
 src/operators/GridFloatToMLS.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 2d99a33..30b2180 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -49,8 +49,9 @@ void GridFloatToMLS::setOutput( MLSGrid* mls )
 template<typename T>
 static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 {
-    Transform mls2grid = grid->getEnvironment()->relativeTransform( grid, mls );
-    
+    Transform mls2grid = grid->getEnvironment()->relativeTransform( mls, grid );
+        Transform grid2mls = mls2grid.inverse( Eigen::Isometry );
+
     boost::multi_array<T, 2>* grid_data;
     if (band_name.empty())
         grid_data = &grid->getGridData();
@@ -69,7 +70,9 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
                 continue;
 
             T value = (*grid_data)[src_yi][src_xi];
-            mls->updateCell(xi, yi, value, 0);
+            // height of the surface in the frame of the mls
+            Eigen::Vector3d p = grid2mls * Eigen::Vector3d(src_p.x(), src_p.y(), value);
+            mls->updateCell(xi, yi, p.z(), 0);
         }
     }
 }
-- 
2.43.0


From b65c840ea8a26149baa8503a21b1fae1ecafd5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 122/193] fix: GridFloatToMLS: use the centers of the cells

---
 src/operators/GridFloatToMLS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 30b2180..96fb4c3 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -60,10 +60,11 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 
     for (size_t yi = 0; yi < mls->getCellSizeY(); ++yi)
     {
-        double y = mls->getScaleY() * yi + mls->getOffsetY();
         for (size_t xi = 0; xi < mls->getCellSizeX(); ++xi)
         {
-            double x = mls->getScaleX() * xi + mls->getOffsetX();
+            // use the center of the cell, since its corner is also part of others
+            double x, y;
+            mls->fromGrid(xi, yi, x, y);
             Eigen::Vector3d src_p = mls2grid * Eigen::Vector3d(x, y, 0);
             size_t src_xi, src_yi;
             if (!grid->toGrid(src_p.x(), src_p.y(), src_xi, src_yi))
-- 
2.43.0


From ac407e9b3cb1adb08656657a9169bf8f1484b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 123/193] fix: GridFloatToMLS: throw if there is no input or
 output

---
 src/operators/GridFloatToMLS.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 96fb4c3..8575155 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -80,14 +80,15 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 
 bool GridFloatToMLS::updateAll()
 {
-    MLSGrid* mls = static_cast<MLSGrid*>(*env->getOutputs(this).begin());
+    MLSGrid* mls = env->getOutput<MLSGrid*>(this);
+    GridBase* input = env->getInput<GridBase*>(this);
 
-    Grid<float>* grid = dynamic_cast<Grid<float>*>(*env->getInputs(this).begin());
+    Grid<float>* grid = dynamic_cast<Grid<float>*>(input);
     if (grid)
         convert(grid, band, mls);
     else
     {
-        Grid<double>* grid = dynamic_cast<Grid<double>*>(*env->getInputs(this).begin());
+        Grid<double>* grid = dynamic_cast<Grid<double>*>(input);
         if (grid)
             convert(grid, band, mls);
         else
-- 
2.43.0


From 90b3c21b7f7c755a1f46d6f887f89bc02af60abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 124/193] fix: MLSToGrid: include guard of its own

---
 src/operators/MLSToGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.hpp b/src/operators/MLSToGrid.hpp
index 00dd865..3be8208 100644
--- a/src/operators/MLSToGrid.hpp
+++ b/src/operators/MLSToGrid.hpp
@@ -1,5 +1,5 @@
-#ifndef __ENVIRE__MLS_SLOPE_HPP__
-#define __ENVIRE__MLS_SLOPE_HPP__
+#ifndef __ENVIRE__MLS_TO_GRID_HPP__
+#define __ENVIRE__MLS_TO_GRID_HPP__
 
 #include <envire/Core.hpp>
 #include <envire/maps/Grid.hpp>
-- 
2.43.0


From 3acd9442084f85617b2d43e932b2426dbf087a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 125/193] fix: CutPointcloud: attributes of clouds without
 variance

---
 src/operators/CutPointcloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index bb7d9b6..2de614c 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -122,7 +122,7 @@ bool CutPointcloud::updateAll(){
                 target_vertex_normal_data->push_back( normal_rot * source_vertex_normal_data->at(i) );
             if(source_vertex_color_data && source_vertex_color_data->size() > i)
                 target_vertex_color_data->push_back( source_vertex_color_data->at(i) );
-            if(source_vertex_attributes_data && source_vertex_variance_data->size() > i)
+            if(source_vertex_attributes_data && source_vertex_attributes_data->size() > i)
                 target_vertex_attributes_data->push_back( source_vertex_attributes_data->at(i) );
             if(source_vertex_variance_data && source_vertex_variance_data->size() > i)
                 target_vertex_variance_data->push_back( source_vertex_variance_data->at(i) );
-- 
2.43.0


From 8cbfe92aaeb5e495ab30e39d52adb6877d6425cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 126/193] fix: Pointcloud: use one type for the vertex
 attributes

---
 src/maps/Pointcloud.hpp         | 2 +-
 src/operators/CutPointcloud.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/maps/Pointcloud.hpp b/src/maps/Pointcloud.hpp
index fd17de0..2c15b40 100644
--- a/src/maps/Pointcloud.hpp
+++ b/src/maps/Pointcloud.hpp
@@ -57,7 +57,7 @@ namespace envire {
 	    vertices.clear();
 	    if( hasData( VERTEX_COLOR ) ) getVertexData<Eigen::Vector3d>( VERTEX_COLOR ).clear();
 	    if( hasData( VERTEX_NORMAL ) ) getVertexData<Eigen::Vector3d>( VERTEX_NORMAL ).clear();
-	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<attr_flag>( VERTEX_ATTRIBUTES ).clear();
+	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<vertex_attr>( VERTEX_ATTRIBUTES ).clear();
 	    if( hasData( VERTEX_VARIANCE ) ) getVertexData<double>( VERTEX_VARIANCE ).clear();
 	};
 
diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index 2de614c..c33d87b 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -80,11 +80,11 @@ bool CutPointcloud::updateAll(){
     // get meta data
     std::vector<Eigen::Vector3d> *source_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *source_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *source_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *source_vertex_attributes_data = NULL;
     std::vector<double> *source_vertex_variance_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *target_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *target_vertex_attributes_data = NULL;
     std::vector<double> *target_vertex_variance_data = NULL;
     if( sourcecloud->hasData(Pointcloud::VERTEX_NORMAL) )
     {
@@ -98,8 +98,8 @@ bool CutPointcloud::updateAll(){
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_ATTRIBUTES) )
     {
-        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
-        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
+        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
+        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_VARIANCE) )
     {
-- 
2.43.0


From dcd0c3defc11b27c33117ee4f9a1eb3573faf3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 127/193] fix: CutPointcloud: throw if input or output are
 missing or the same

---
 src/operators/CutPointcloud.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index c33d87b..40a0ddd 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -69,14 +69,12 @@ bool CutPointcloud::isIncluded(const Eigen::Vector3d &vector)
 }
 
 bool CutPointcloud::updateAll(){
-    Pointcloud* targetcloud = dynamic_cast<envire::Pointcloud*>(env->getOutputs(this).front());
-    assert( targetcloud );
+    Pointcloud* targetcloud = env->getOutput<Pointcloud*>(this);
+    Pointcloud* sourcecloud = env->getInput<Pointcloud*>(this);
+    if( sourcecloud == targetcloud )
+        throw std::runtime_error("CutPointcloud needs different clouds as input and output.");
     targetcloud->clear();
 
-    Pointcloud* sourcecloud = dynamic_cast<envire::Pointcloud*>(env->getInputs(this).front());
-    assert( sourcecloud );
-    assert( sourcecloud != targetcloud );
-
     // get meta data
     std::vector<Eigen::Vector3d> *source_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *source_vertex_color_data = NULL;
-- 
2.43.0


From 17c9b75f0ab50462e111cf7fcf262e4a6cc615c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 128/193] fix: MergePointcloud: check the inputs before
 changing the output

---
 src/operators/MergePointcloud.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/operators/MergePointcloud.cpp b/src/operators/MergePointcloud.cpp
index 65c6a05..25164af 100644
--- a/src/operators/MergePointcloud.cpp
+++ b/src/operators/MergePointcloud.cpp
@@ -49,10 +49,7 @@ void MergePointcloud::setClearOutput( bool clear )
 }
 
 bool MergePointcloud::updateAll(){
-    Pointcloud* targetcloud = dynamic_cast<envire::Pointcloud*>(*env->getOutputs(this).begin());
-    assert( targetcloud );
-    if( m_clearOutput )
-	targetcloud->clear();
+    Pointcloud* targetcloud = env->getOutput<Pointcloud*>(this);
 
     std::list<Layer*> inputs = env->getInputs(this);
 
@@ -61,17 +58,30 @@ bool MergePointcloud::updateAll(){
 
     for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ ){
 	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
+	if( !cloud || cloud == targetcloud )
+	    throw std::runtime_error("MergePointcloud needs pointclouds other than the output as input.");
+
 	hasNormal = hasNormal || cloud->hasData( Pointcloud::VERTEX_NORMAL );
 	hasColor = hasColor || cloud->hasData( Pointcloud::VERTEX_COLOR );
+    }
 
-	assert( cloud != targetcloud );
+    // check the inputs before changing the output
+    for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ ){
+	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
+	const size_t size = cloud->vertices.size();
+	if( (hasNormal && !(cloud->hasData( Pointcloud::VERTEX_NORMAL ) 
+			&& cloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ).size() == size)) ||
+	    (hasColor && !(cloud->hasData( Pointcloud::VERTEX_COLOR ) 
+			&& cloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ).size() == size)) )
+	    throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
     }
 
+    if( m_clearOutput )
+	targetcloud->clear();
+
     //for every cloud
     for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ ){
 	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
-	assert(cloud);
-
 	Transform trans = 
 	    env->relativeTransform( cloud->getFrameNode(), targetcloud->getFrameNode() );
 
@@ -83,9 +93,6 @@ bool MergePointcloud::updateAll(){
 
 	if( hasNormal )
 	{
-	    if( !cloud->hasData( Pointcloud::VERTEX_NORMAL ) )
-		throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
-
 	    Eigen::Quaterniond rot(trans.linear());
 
 	    std::vector<Eigen::Vector3d> &source_data( cloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ) );
@@ -100,9 +107,6 @@ bool MergePointcloud::updateAll(){
 
 	if( hasColor )
 	{
-	    if( !cloud->hasData( Pointcloud::VERTEX_COLOR ) )
-		throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
-
 	    std::vector<Eigen::Vector3d> &source_data( cloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 	    std::vector<Eigen::Vector3d> &target_data( targetcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 
-- 
2.43.0


From 573c84f45e84601adc9098ad494812884b27e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 129/193] fix: DistanceGridToPointcloud: refuse missing or
 unsuitable inputs

---
 src/operators/DistanceGridToPointcloud.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operators/DistanceGridToPointcloud.cpp b/src/operators/DistanceGridToPointcloud.cpp
index 9abeb54..1dda345 100644
--- a/src/operators/DistanceGridToPointcloud.cpp
+++ b/src/operators/DistanceGridToPointcloud.cpp
@@ -37,6 +37,12 @@ bool DistanceGridToPointcloud::updateAll()
 	    dist = dynamic_cast<DistanceGrid*>( *it );
     }
 
+    if( !dist )
+	throw std::runtime_error("DistanceGridToPointcloud needs a DistanceGrid as input.");
+
+    if( image && (image->getWidth() != dist->getWidth() || image->getHeight() != dist->getHeight()) )
+	throw std::runtime_error("DistanceGridToPointcloud needs an image of the same size as the distance grid.");
+
     DistanceGrid const& distanceGrid = *dist;
     Pointcloud& pointcloud = *env->getOutput< Pointcloud* >(this);
 
-- 
2.43.0


From 142e7d6b9aff66f864f1746f3883eb47cb8699d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 130/193] fix: ScanMeshing: store the scale factor of the
 remission

---
 src/operators/ScanMeshing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 1b9a79f..491648c 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -28,7 +28,7 @@ void ScanMeshing::serialize(Serialization& so)
 {
     Operator::serialize(so);
     so.write("maxEdgeLength", maxEdgeLength ); 
-    so.write("remissionScaleFactor", maxEdgeLength ); 
+    so.write("remissionScaleFactor", remissionScaleFactor ); 
     so.write("minRange", minRange ); 
 }
 
@@ -36,7 +36,7 @@ void ScanMeshing::unserialize(Serialization& so)
 {
     Operator::unserialize(so);
     so.read("maxEdgeLength", maxEdgeLength ); 
-    so.read("remissionScaleFactor", maxEdgeLength ); 
+    so.read("remissionScaleFactor", remissionScaleFactor ); 
     so.read("minRange", minRange ); 
 }
 
-- 
2.43.0


From ff703ec590eaaefb7d3362b8a29ae171935ab353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 131/193] fix: ScanMeshing: use the first point in faces

---
 src/operators/ScanMeshing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 491648c..eee170d 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -262,7 +262,7 @@ bool ScanMeshing::updateAll()
                     
                     // check polygon for existance and then see if all
                     // three edges are within the threshold limit
-                    if( (poly[idx[0]] > 0) && (poly[idx[1]] > 0) && (poly[idx[2]] > 0) && 
+                    if( (poly[idx[0]] >= 0) && (poly[idx[1]] >= 0) && (poly[idx[2]] >= 0) && 
                             (first_poly==-1 || (first_poly+n)%2==0 ) ) {
 
                         float dist_a = (points[poly[idx[0]]] - points[poly[idx[1]]]).norm();
-- 
2.43.0


From 25b6ed76e2e757a68dabfade6e328361e5a4537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 132/193] fix: ScanMeshing: scans with lines of different
 lengths

---
 src/operators/ScanMeshing.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index eee170d..daee16a 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -138,8 +138,11 @@ bool ScanMeshing::updateAll()
 
     envire::LaserScan& scan(*scanPtr);
 
-    int line1[scan.points_per_line], line2[scan.points_per_line];
-    int *idx_line=line1, *prev_idx_line=line2;
+    // the lines of a scan do not need to have the same length
+    size_t max_points = 0;
+    for(size_t line_num=0;line_num<scan.lines.size();line_num++)
+	max_points = std::max( max_points, scan.lines[line_num].ranges.size() );
+    std::vector<int> idx_line( max_points, -1 ), prev_idx_line( max_points, -1 );
 
     for(size_t line_num=0;line_num<scan.lines.size();line_num++) {
         const LaserScan::scanline_t& line(scan.lines[line_num]);
@@ -296,9 +299,8 @@ bool ScanMeshing::updateAll()
         }
 
         // swap line and previous line
-        int *tmp = idx_line;
-        idx_line = prev_idx_line;
-        prev_idx_line = tmp;
+        idx_line.swap( prev_idx_line );
+        std::fill( idx_line.begin(), idx_line.end(), -1 );
     }
 
     for(size_t i=0;i<markers.size();i++)
-- 
2.43.0


From d0f866ceb736aaba8874af5b1ca1e2bf4705557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 133/193] fix: ScanMeshing: scans with remissions for some
 lines only

---
 src/operators/ScanMeshing.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index daee16a..8bf0525 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -311,9 +311,8 @@ bool ScanMeshing::updateAll()
     // calculate vertex normals
     meshPtr->calcVertexNormals();
 
-    // remove colors if empty 
-    assert( colors.empty() || colors.size() == points.size() );
-    if( colors.empty() )
+    // remove colors if not available for all points
+    if( colors.empty() || colors.size() != points.size() )
 	meshPtr->removeData( TriMesh::VERTEX_COLOR );
 
     // mark item as modified
-- 
2.43.0


From f1691e54d84e4ca53af78ce1c349843fe50d5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 134/193] fix: ScanMeshing: define setExtractMarkers

---
 src/operators/ScanMeshing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 8bf0525..eb782c7 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -84,6 +84,11 @@ void ScanMeshing::setRemissionMarkerThreshold( long value )
     remissionMarkerThreshold = value;
 }
 
+void ScanMeshing::setExtractMarkers( bool value )
+{
+    extractMarkers = value;
+}
+
 struct Marker
 {
     Eigen::Vector3d center;
-- 
2.43.0


From 8609edc08bd7ccebdac6288f8aababe6f91842e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 135/193] fix: FoldOperator: cells beyond the last row or
 column

---
 src/operators/Fold.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/Fold.hpp b/src/operators/Fold.hpp
index aae1db8..d436681 100644
--- a/src/operators/Fold.hpp
+++ b/src/operators/Fold.hpp
@@ -34,7 +34,7 @@ public:
                 size_t yr = ys + y;
                 
                 //no negative check needed, will overflow if negative
-                if(xr > maxX || yr > maxY)
+                if(xr >= maxX || yr >= maxY)
                     continue;
                 
                 cnt++;
-- 
2.43.0


From a71e2ddd74e487e6e60178850c5b0807b1a0ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 136/193] fix: FoldOperator: grid that is input and output

---
 src/operators/Fold.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/Fold.hpp b/src/operators/Fold.hpp
index d436681..790c7a7 100644
--- a/src/operators/Fold.hpp
+++ b/src/operators/Fold.hpp
@@ -62,7 +62,8 @@ public:
         if(inputGrid->getCellSizeX() != outputGrid->getCellSizeX() || inputGrid->getCellSizeY() != outputGrid->getCellSizeY())
             throw std::runtime_error("FoldOperator: Error, grids have different sizes");
 
-        typename envire::Grid<T>::ArrayType &inputData(inputGrid->getGridData());
+        // the input must not change while it is read, also if it is the output
+        const typename envire::Grid<T>::ArrayType inputData(inputGrid->getGridData());
         typename envire::Grid<T>::ArrayType &outputData(outputGrid->getGridData());
 
         maxX = inputGrid->getCellSizeX();
-- 
2.43.0


From 9f47027d6586a65ef59dd85fcaef00fb0c9c9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 137/193] fix: ObjectGrowing: policies for the largest value

---
 src/operators/ObjectGrowing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/ObjectGrowing.hpp b/src/operators/ObjectGrowing.hpp
index 90f7b91..489d180 100644
--- a/src/operators/ObjectGrowing.hpp
+++ b/src/operators/ObjectGrowing.hpp
@@ -11,7 +11,9 @@ class GrowthPolicy {
 public:
     GrowthPolicy(X maxValue)
     {
-        policy.resize(boost::extents[maxValue][maxValue]);
+        // maxValue itself is a valid value
+        const size_t size = static_cast<size_t>(maxValue) + 1;
+        policy.resize(boost::extents[size][size]);
     }
     
     void setBigger(X a, X b, bool isBigger)
-- 
2.43.0


From d14bec7c45a5121724e710335e3595b947e4e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 138/193] fix: ObjectGrowing: output band if no band is given

---
 src/operators/ObjectGrowing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/ObjectGrowing.hpp b/src/operators/ObjectGrowing.hpp
index 489d180..5a6a9b8 100644
--- a/src/operators/ObjectGrowing.hpp
+++ b/src/operators/ObjectGrowing.hpp
@@ -49,7 +49,9 @@ public:
             mapIn.getGridData() :
             mapIn.getGridData(band_name);
 
-        typename Grid< Y >::ArrayType &data( mapOut.getGridData(band_name) );
+        typename Grid< Y >::ArrayType& data = band_name.empty() ?
+            mapOut.getGridData() :
+            mapOut.getGridData(band_name);
 
         if(orig_data.num_elements() != data.num_elements())
             throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
-- 
2.43.0


From 3fd0dd823497f04af7c7bb24990782be268be2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 139/193] fix: ObjectGrowing: grids with the same number of
 cells, but other sizes

---
 src/operators/ObjectGrowing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/ObjectGrowing.hpp b/src/operators/ObjectGrowing.hpp
index 5a6a9b8..e0e6e50 100644
--- a/src/operators/ObjectGrowing.hpp
+++ b/src/operators/ObjectGrowing.hpp
@@ -53,7 +53,7 @@ public:
             mapOut.getGridData() :
             mapOut.getGridData(band_name);
 
-        if(orig_data.num_elements() != data.num_elements())
+        if(orig_data.shape()[0] != data.shape()[0] || orig_data.shape()[1] != data.shape()[1])
             throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
     
         memcpy(data.data(), orig_data.data(), sizeof(Y) * orig_data.num_elements());
-- 
2.43.0


From 50a35cd06fdaa9f21e0d6ba977e5b09e7d7f3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 140/193] fix: ObjectGrowing: map that is input and output

---
 src/operators/ObjectGrowing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/ObjectGrowing.hpp b/src/operators/ObjectGrowing.hpp
index e0e6e50..2ff0839 100644
--- a/src/operators/ObjectGrowing.hpp
+++ b/src/operators/ObjectGrowing.hpp
@@ -45,7 +45,8 @@ public:
             sy = mapIn.getScaleY();
 
 
-        typename Grid< Y >::ArrayType& orig_data = band_name.empty() ?
+        // the input must not change while it is read, also if it is the output
+        const typename Grid< Y >::ArrayType orig_data = band_name.empty() ?
             mapIn.getGridData() :
             mapIn.getGridData(band_name);
 
-- 
2.43.0


From b78aca78b700b471facc1785d09021ae17ae4675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 141/193] fix: icp: rotation of the best transform between
 pairs

---
 icp/icp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/icp.cpp b/icp/icp.cpp
index 2db00ad..563532d 100644
--- a/icp/icp.cpp
+++ b/icp/icp.cpp
@@ -78,7 +78,7 @@ Affine3d Pairs::getTransform()
 
     Matrix4d q_px;
     q_px << sigma_px.trace(), delta.transpose(), 
-	 delta, A - Matrix3d::Identity() * sigma_px.trace();
+	 delta, sigma_px + sigma_px.transpose() - Matrix3d::Identity() * sigma_px.trace();
 
     // do an eigenvalue decomposition of Q
     Quaterniond q_R;
-- 
2.43.0


From 29e623e76337114609f6918738cab0486f1da60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 142/193] fix: icp: pairs for which the eigenvalues are not
 distinct

---
 icp/icp.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/icp/icp.cpp b/icp/icp.cpp
index 563532d..99e9d83 100644
--- a/icp/icp.cpp
+++ b/icp/icp.cpp
@@ -81,16 +81,10 @@ Affine3d Pairs::getTransform()
 	 delta, sigma_px + sigma_px.transpose() - Matrix3d::Identity() * sigma_px.trace();
 
     // do an eigenvalue decomposition of Q
-    Quaterniond q_R;
-    EigenSolver<Matrix4d> eigenSolver(q_px);
-    double max_eig = eigenSolver.eigenvalues().real().maxCoeff();
-    for(int i=0;i<eigenSolver.eigenvalues().rows();i++) {
-	if(eigenSolver.eigenvalues()(i) == max_eig) {
-	    Vector4d max_eigv = eigenSolver.eigenvectors().col(i).real();
-	    q_R = Quaterniond( max_eigv(0), max_eigv(1), max_eigv(2), max_eigv(3) );
-	    break;
-	}
-    }
+    // Q is symmetric, and the eigenvalues are sorted in increasing order
+    SelfAdjointEigenSolver<Matrix4d> eigenSolver(q_px);
+    Vector4d max_eigv = eigenSolver.eigenvectors().col(3);
+    Quaterniond q_R( max_eigv(0), max_eigv(1), max_eigv(2), max_eigv(3) );
 
     // resulting transformation that will align p to x, if applied to p 
     Vector3d q_T = mu_x - q_R * mu_p;
-- 
2.43.0


From f492d272340f51e777c0324cdf3a4d60846a0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 143/193] fix: icp: golden section search

---
 icp/icp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/icp/icp.hpp b/icp/icp.hpp
index 821614b..84b6c25 100644
--- a/icp/icp.hpp
+++ b/icp/icp.hpp
@@ -306,12 +306,12 @@ struct GoldenBracket
 	while (fabs(x3-x0) > eps*(fabs(x1)+fabs(x2))) 
 	{
 	    if (f2 < f1) {
-		SHIFT3(x0,x1,x2,R*x1+C*x3);
+		SHIFT3(x0,x1,x2,R*x2+C*x3);
 		SHIFT2(f1,f2,f(x2));
 	    } 
 	    else 
 	    {
-		SHIFT3(x3,x2,x1,R*x2+C*x0);
+		SHIFT3(x3,x2,x1,R*x1+C*x0);
 		SHIFT2(f2,f1,f(x1));
 	    }
 	}
-- 
2.43.0


From fef547d3c64dbff0a180329b4ddb8436fafd5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 144/193] fix: icp: include guards

---
 icp/icpLocalization.hpp | 2 +-
 icp/stability.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/icp/icpLocalization.hpp b/icp/icpLocalization.hpp
index b3d5fbe..71770ad 100644
--- a/icp/icpLocalization.hpp
+++ b/icp/icpLocalization.hpp
@@ -1,5 +1,5 @@
 #ifndef __ICP_LOCALIZATION_H__
-#define __ICP_LOCALIZATION_H_
+#define __ICP_LOCALIZATION_H__
 
 #define EIGEN_USE_NEW_STDVECTOR
 
diff --git a/icp/stability.hpp b/icp/stability.hpp
index 992bff0..50303f1 100644
--- a/icp/stability.hpp
+++ b/icp/stability.hpp
@@ -1,5 +1,5 @@
 #ifndef __STABILITY_H__
-#define __STABILITY_H_
+#define __STABILITY_H__
 
 #define EIGEN_USE_NEW_STDVECTOR
 
-- 
2.43.0


From d2c2c0ece275d9288d278dbf45a89812a7b62a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 145/193] fix: ransac: header in more than one source file

---
 icp/ransac.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/ransac.hpp b/icp/ransac.hpp
index 4d4c6db..fe6a5f1 100644
--- a/icp/ransac.hpp
+++ b/icp/ransac.hpp
@@ -103,7 +103,7 @@ struct FitTransformUncertain : public FitTransform
 // http://code.google.com/p/mrpt/
 //
 
-void pickRandomIndex( size_t p_size, size_t p_pick, vector_size_t& p_ind )
+inline void pickRandomIndex( size_t p_size, size_t p_pick, vector_size_t& p_ind )
 {
     assert( p_size >= p_pick );
 
-- 
2.43.0


From 90c750afafc7edaff200ccf38ed25c648cd64a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 146/193] fix: ransac: fewer samples than needed for a model

---
 icp/ransac.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/icp/ransac.hpp b/icp/ransac.hpp
index fe6a5f1..22677d6 100644
--- a/icp/ransac.hpp
+++ b/icp/ransac.hpp
@@ -131,6 +131,9 @@ bool ransacSingleModel( const TModelFit& p_state,
     size_t nSamples = p_state.getSampleCount();
     vector_size_t ind( p_kernelSize );
 
+    if( nSamples < p_kernelSize )
+	return false;
+
     while ( iter < softIterLimit && iter < hardIterLimit )
     {
 	bool degenerate = true;
-- 
2.43.0


From bbd661666347d881e92b08a4f8f9d5a6ccec9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 147/193] fix: ransac: models without inliers

---
 icp/ransac.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/icp/ransac.hpp b/icp/ransac.hpp
index 22677d6..e18b2e9 100644
--- a/icp/ransac.hpp
+++ b/icp/ransac.hpp
@@ -134,7 +134,8 @@ bool ransacSingleModel( const TModelFit& p_state,
     if( nSamples < p_kernelSize )
 	return false;
 
-    while ( iter < softIterLimit && iter < hardIterLimit )
+    // models without any inlier don't count as a result
+    while ( ( iter < softIterLimit || bestScore == 0 ) && iter < hardIterLimit )
     {
 	bool degenerate = true;
 	typename TModelFit::Model currentModel;
@@ -155,7 +156,6 @@ bool ransacSingleModel( const TModelFit& p_state,
 	    if( p_state.testSample( i, currentModel ) < p_fitnessThreshold )
 		inliers.push_back( i );
 	}
-	assert( inliers.size() > 0 );
 
 	// Find the number of inliers to this model.
 	const size_t ninliers = inliers.size();
@@ -178,7 +178,7 @@ bool ransacSingleModel( const TModelFit& p_state,
 	iter++;
     }
 
-    return true;
+    return bestScore > 0;
 }
 
 }
-- 
2.43.0


From 98e28b5ccd756d354d4eaa675d763bd88c3a5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 148/193] fix: Clustering: yaw variance of all points

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index b4bb292..0288535 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -44,7 +44,7 @@ void Clustering::calcVariance(  )
     for(unsigned int i = 0; i < points.size(); i++) 
     {
 	variance_postion = variance_postion + (mean.translation() - points.at(i).translation()).array().square().matrix(); 
-	variance_yaw = variance_yaw + pow(  Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0]  -  Matrix3d( points.at(0).rotation()).eulerAngles(2,1,0)[0], 2 );
+	variance_yaw = variance_yaw + pow(  Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0]  -  Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0], 2 );
     }
 
     variance_postion = variance_postion / points.size();
-- 
2.43.0


From 9e8bf9ac1c1d724ca526dee9c4ea895d1de26117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 149/193] fix: Clustering: negative yaw angles, and angles
 around pi

---
 icp/stability.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index 0288535..f75135b 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -12,6 +12,17 @@ using namespace std;
 using namespace Eigen; 
 using namespace envire::icp;
 
+static double getYaw( const Eigen::Affine3d& transform )
+{
+    return atan2( transform.linear()(1,0), transform.linear()(0,0) );
+}
+
+/** difference between the yaw angles, in the range [-pi, pi] */
+static double getYawDiff( const Eigen::Affine3d& a, const Eigen::Affine3d& b )
+{
+    const double diff = getYaw( a ) - getYaw( b );
+    return atan2( sin( diff ), cos( diff ) );
+}
 
 bool Clustering::cluster(  std::vector<Eigen::Affine3d> points ) 
 {
@@ -44,7 +55,7 @@ void Clustering::calcVariance(  )
     for(unsigned int i = 0; i < points.size(); i++) 
     {
 	variance_postion = variance_postion + (mean.translation() - points.at(i).translation()).array().square().matrix(); 
-	variance_yaw = variance_yaw + pow(  Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0]  -  Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0], 2 );
+	variance_yaw = variance_yaw + pow( getYawDiff( mean, points.at(i) ), 2 );
     }
 
     variance_postion = variance_postion / points.size();
@@ -72,19 +83,19 @@ void Clustering::calcMean( )
     //find the mean of position and rotation solution 
     Vector3d position_mean;
     double yaw_mean;
+    double yaw_sin = 0, yaw_cos = 0;
     position_mean.setZero();
-    yaw_mean = 0; 
     
     for(unsigned int i = 0; i < points.size(); i++) 
     {
 	//std::cout << points.at(i).translation().transpose() << " - " <<  Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0] * 180 / M_PI<<  endl; 
 	position_mean = position_mean + points.at(i).translation(); 
-	yaw_mean = yaw_mean + Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0]; 
-	
+	yaw_sin += sin( getYaw( points.at(i) ) );
+	yaw_cos += cos( getYaw( points.at(i) ) );
     }
     
     position_mean = position_mean /  points.size(); 
-    yaw_mean = yaw_mean /  points.size(); 
+    yaw_mean = atan2( yaw_sin, yaw_cos );
     //std::cout <<points.size() <<" mean " << position_mean.transpose() << " - " <<  yaw_mean * 180 / M_PI <<  endl; 
     mean = Eigen::AngleAxisd( yaw_mean, Eigen::Vector3d::UnitZ() ); 
     mean.translation() = position_mean;
@@ -138,7 +149,7 @@ bool Clustering::removeOutliers(  )
 	{
 	    for(unsigned int i = 0; i < points.size(); i++) 
 	    {
-		diference = fabs( Matrix3d( points.at(i).rotation() ).eulerAngles(2,1,0)[0] - Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0] ); 
+		diference = fabs( getYawDiff( points.at(i), mean ) );
 		if( diference > max_diference )
 		{
 		    at_max_diff = i; 
-- 
2.43.0


From 3c5566d66648da35b3a32ad22af30cf45fe9d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 150/193] fix: Clustering: outlier limit of the orientation

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index f75135b..8b2f674 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -108,7 +108,7 @@ void Clustering::defOutlinerRegion(Eigen::Matrix3d cov_position, Eigen::Matrix3d
     {
 	SigmaPoints sigma_points; 
 	Eigen::Matrix3d sigma_points_pos = sigma_points.calcSigmaPoints(cov_position, conf.outliers_position); 
-	Eigen::Matrix3d sigma_points_ori = sigma_points.calcSigmaPoints(cov_position, conf.outliers_orientation); 
+	Eigen::Matrix3d sigma_points_ori = sigma_points.calcSigmaPoints(cov_orientation, conf.outliers_orientation); 
 	
 	variance_limit_ori = sigma_points_ori * sigma_points_ori; 
 	variance_limit_pos = sigma_points_pos * sigma_points_pos; 
-- 
2.43.0


From 40af5c589791c5d0b2798a385b4821a000673770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 151/193] fix: Clustering: outlier limits for correlated
 covariances

---
 icp/stability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index 8b2f674..80db6ce 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -110,8 +110,8 @@ void Clustering::defOutlinerRegion(Eigen::Matrix3d cov_position, Eigen::Matrix3d
 	Eigen::Matrix3d sigma_points_pos = sigma_points.calcSigmaPoints(cov_position, conf.outliers_position); 
 	Eigen::Matrix3d sigma_points_ori = sigma_points.calcSigmaPoints(cov_orientation, conf.outliers_orientation); 
 	
-	variance_limit_ori = sigma_points_ori * sigma_points_ori; 
-	variance_limit_pos = sigma_points_pos * sigma_points_pos; 
+	variance_limit_ori = sigma_points_ori * sigma_points_ori.transpose(); 
+	variance_limit_pos = sigma_points_pos * sigma_points_pos.transpose(); 
     }
 }
 
-- 
2.43.0


From 569244877dc6c2c3632a6bfc1bdfa5b65362396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 152/193] fix: Clustering: distance of outliers to the mean

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index 80db6ce..f3f5e93 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -136,7 +136,7 @@ bool Clustering::removeOutliers(  )
 	{
 	    for(unsigned int i = 0; i < points.size(); i++) 
 	    {
-		diference = fabs( mean.translation().norm() - points.at(i).translation().norm() );
+		diference = ( mean.translation() - points.at(i).translation() ).norm();
 		if( diference > max_diference )
 		{
 		    at_max_diff = i; 
-- 
2.43.0


From 19787d87eca13c7635ec5e812e914d1dbe7ee2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 153/193] fix: SigmaPoints: covariances without variance in one
 direction

---
 icp/stability.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/icp/stability.hpp b/icp/stability.hpp
index 50303f1..3f11ab8 100644
--- a/icp/stability.hpp
+++ b/icp/stability.hpp
@@ -35,9 +35,16 @@ class SigmaPoints
 	*/
 	Eigen::Matrix3d calcSigmaPoints(Eigen::Matrix3d matrix, SigmaPointConfiguration conf)
 	{
-	    Eigen::LLT<Eigen::Matrix3d> llt;
-	    llt.compute(matrix);
-	    Eigen::Matrix3d sigma_points = llt.matrixL();
+	    // Cholesky decomposition, which also has to work for matrices that
+	    // are only positive semi-definite, e.g. without variance in x
+	    Eigen::Matrix3d sigma_points = Eigen::Matrix3d::Zero();
+	    for(int column = 0; column < 3; column++)
+	    {
+		Eigen::Vector3d rest = matrix.col(column) - sigma_points * sigma_points.row(column).transpose();
+		if( rest(column) <= 1e-12 * matrix(column,column) )
+		    continue;
+		sigma_points.col(column).tail(3 - column) = rest.tail(3 - column) / sqrt( rest(column) );
+	    }
 
 	    sigma_points = conf.n_sigma * sigma_points; 
 
-- 
2.43.0


From acdc29b03256cee6e7334079e47543c189e768bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 154/193] fix: Histogram: no distances

---
 icp/stability.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index f3f5e93..099c68a 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -345,7 +345,7 @@ void Histogram::calculateNormalizedHistogram(std::vector<double> _pairs_distance
     //add the lower limit for the outliner 
     double outliner_upper_limit = (-conf.number_bins / 2)  * bin_size;
     
-    if (  pairs_distance.front() < outliner_upper_limit ) 
+    if ( !pairs_distance.empty() && pairs_distance.front() < outliner_upper_limit ) 
 	histogram_limits.push_back( outliner_upper_limit + pairs_distance.front() );
     else 
 	histogram_limits.push_back( outliner_upper_limit - bin_size );
@@ -360,12 +360,18 @@ void Histogram::calculateNormalizedHistogram(std::vector<double> _pairs_distance
     }    
     
     //add the upper limit for the outliner 
-    if ( pairs_distance.back() > bin_lower_limit) 
+    if ( !pairs_distance.empty() && pairs_distance.back() > bin_lower_limit) 
 	histogram_limits.push_back( bin_lower_limit + pairs_distance.back() );
     else 
 	histogram_limits.push_back( bin_lower_limit + bin_size );
     
     
+    if ( pairs_distance.empty() )
+    {
+	histogram.resize( conf.number_bins + 2, 0 );
+	return;
+    }
+
     double bin_area = 0;
     //fill the bins 
     bin = 1; 
-- 
2.43.0


From 042be5743a0326be94edf9c928346e89c6805c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 155/193] fix: Histogram: unsorted distances

---
 icp/stability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index 099c68a..81ccb22 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -327,6 +327,9 @@ void Histogram::calculateNormalizedHistogram(std::vector<double> _pairs_distance
 	pairs_distance.push_back( (_pairs_distance.at(i)- conf.mean)/conf.sigma); 
     }
 
+    //the bins are filled in ascending order
+    std::sort( pairs_distance.begin(), pairs_distance.end() );
+
     histogram.clear();
     histogram_limits.clear(); 
 
-- 
2.43.0


From 7634ff70b64f9a1fa91e73767cfda66ed925b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 156/193] fix: Histogram: normalize all bins by their width

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index 81ccb22..3507941 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -390,7 +390,7 @@ void Histogram::calculateNormalizedHistogram(std::vector<double> _pairs_distance
 	  {
 		
 		bin_area =fabs(histogram_limits[bin-1] - histogram_limits[bin]); 
-		histogram.push_back( number_of_points/ ( pairs_distance.size() * conf.area) ); 
+		histogram.push_back( number_of_points/ ( pairs_distance.size() * bin_area) ); 
 		
 		bin ++; 
 		//the +2 is for the outliers bins
-- 
2.43.0


From 41fb6ed57f7fd84d33694be5bbc5d98a7e79d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 157/193] fix: ICPLocalization: head rotation to earlier scans

---
 icp/icpLocalization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/icpLocalization.cpp b/icp/icpLocalization.cpp
index 4798f76..8e3eb35 100644
--- a/icp/icpLocalization.cpp
+++ b/icp/icpLocalization.cpp
@@ -66,7 +66,7 @@ void ICPLocalization::addScanLineToPointCloud(Eigen::Affine3d body2Odo, Eigen::A
 
 	Vector3d Ylaser2Body = laser2Body * Vector3d::UnitY() - laser2Body.translation();
 	Ylaser2Body.normalize();
-	Vector3d YlastLaser2Body = scansWithTransforms.back().laser2Body * Vector3d::UnitY() - scansWithTransforms.at(i).laser2Body.translation();
+	Vector3d YlastLaser2Body = scansWithTransforms.at(i).laser2Body * Vector3d::UnitY() - scansWithTransforms.at(i).laser2Body.translation();
 	YlastLaser2Body.normalize();
 	
 	double laserChange = acos(Ylaser2Body.dot(YlastLaser2Body));
-- 
2.43.0


From 390ee576045c3f99f7380907fd4d1b3921151035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 158/193] fix: ICPLocalization: generate a pointcloud without
 scans

---
 icp/icpLocalization.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/icp/icpLocalization.cpp b/icp/icpLocalization.cpp
index 8e3eb35..043afe0 100644
--- a/icp/icpLocalization.cpp
+++ b/icp/icpLocalization.cpp
@@ -131,6 +131,9 @@ void ICPLocalization::loadEnvironment(std::string environment_path, double model
 
 ICPInputData ICPLocalization::generatePointcloud()
 {
+    if( scansWithTransforms.empty() )
+	throw std::runtime_error("ICPLocalization: there are no scans to generate a pointcloud from");
+
     envire::Pointcloud *pc = new envire::Pointcloud();
 
     Eigen::Affine3d odo2World;
-- 
2.43.0


From 09d016c11241891efe91173d344b80659f954c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 159/193] fix: ICPLocalization: start without an environment

---
 icp/icpLocalization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/icp/icpLocalization.cpp b/icp/icpLocalization.cpp
index 043afe0..43898f4 100644
--- a/icp/icpLocalization.cpp
+++ b/icp/icpLocalization.cpp
@@ -119,6 +119,10 @@ void ICPLocalization::loadEnvironment(std::string environment_path, double model
 	// load the environment
 	boost::scoped_ptr<envire::Environment>(envire::Environment::unserialize( environment_path) ).swap( env );
     }
+    else if( !env )
+    {
+	env.reset( new envire::Environment() );
+    }
     
     // and load all the pointcloud data into the icp model
     std::vector<envire::Pointcloud*> items = env->getItems<envire::Pointcloud>();
-- 
2.43.0


From ee2bc2d246ea384fca41aff37b7ac4c569eb6ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 160/193] fix: ICPLocalization: remove a pointcloud that was
 not saved

---
 icp/icpLocalization.cpp | 8 ++++++++
 icp/icpLocalization.hpp | 1 +
 2 files changed, 9 insertions(+)

diff --git a/icp/icpLocalization.cpp b/icp/icpLocalization.cpp
index 43898f4..05c5aa4 100644
--- a/icp/icpLocalization.cpp
+++ b/icp/icpLocalization.cpp
@@ -189,8 +189,14 @@ ICPInputData ICPLocalization::generatePointcloudSample(ICPInputData originalData
 
 void ICPLocalization::removeLastSavedPointCloud()
 {
+    // the last pointcloud may not have been saved
+    if( !pc )
+	return;
+
     env->detachItem( pc );
     env->detachItem( fn );	
+    pc = NULL;
+    fn = NULL;
 }
 ICPResult ICPLocalization::doScanMatch(struct ICPInputData& inputData, bool save)
 {
@@ -253,6 +259,8 @@ ICPResult ICPLocalization::doScanMatch(struct ICPInputData& inputData, bool save
     {
 	env->detachItem( pc );
 	env->detachItem( fn );	
+	pc = NULL;
+	fn = NULL;
     }
     
     return result; 
diff --git a/icp/icpLocalization.hpp b/icp/icpLocalization.hpp
index 71770ad..a323592 100644
--- a/icp/icpLocalization.hpp
+++ b/icp/icpLocalization.hpp
@@ -95,6 +95,7 @@ class ICPLocalization
 	
 	envire::FrameNode *fn;
     public: 
+	ICPLocalization() : lastScanIndex(0), scanCount(0), pc(NULL), fn(NULL) {}
   
 	void removeLastSavedPointCloud();
 	
-- 
2.43.0


From 0fb618e768304418d0a70f2f326f4842ca11a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 161/193] fix: ICPLocalization: result of scans without pairs

---
 icp/icpLocalization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/icp/icpLocalization.cpp b/icp/icpLocalization.cpp
index 05c5aa4..bc13c61 100644
--- a/icp/icpLocalization.cpp
+++ b/icp/icpLocalization.cpp
@@ -222,6 +222,10 @@ ICPResult ICPLocalization::doScanMatch(struct ICPInputData& inputData, bool save
     result.points = pc->vertices.size(); 
     result.from = inputData.pc2World; 
     result.pairs = icp.getPairs(); 
+    result.mse = INFINITY;
+    result.to = result.from;
+    result.cov_position = Eigen::Matrix3d::Ones()*INFINITY; 
+    result.cov_orientation = Eigen::Matrix3d::Ones()*INFINITY; 
     
     if(result.pairs > 0) {
 	
-- 
2.43.0


From cce8ed7390157c1dd88ac0029754bef6986cf32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:02 +0000
Subject: [PATCH 162/193] fix: GraphViz: ids and labels with special characters

---
 src/tools/GraphViz.cpp | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/tools/GraphViz.cpp b/src/tools/GraphViz.cpp
index 58a46a9..7bf30de 100644
--- a/src/tools/GraphViz.cpp
+++ b/src/tools/GraphViz.cpp
@@ -6,13 +6,24 @@
 
 using namespace envire;
 
-std::string dot_id(envire::EnvironmentItem* item)
+/** ids may have any characters, which need to be escaped in quoted strings */
+static std::string escape(const std::string& text)
 {
-    std::string result = item->getUniqueId();
-    std::replace(result.begin(), result.end(), '/', '_');
+    std::string result;
+    foreach( char c, text )
+    {
+	if( c == '"' || c == '\\' )
+	    result += '\\';
+	result += c;
+    }
     return result;
 }
 
+static std::string dot_id(envire::EnvironmentItem* item)
+{
+    return "\"g" + escape(item->getUniqueId()) + "\"";
+}
+
 void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 {
     std::ofstream os(outputfile.c_str());
@@ -28,10 +39,10 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 	if( classname.find("::") != std::string::npos )
 	    classname = classname.substr( classname.rfind("::") + 2 );
 
-	os << "g" << dot_id(item) << " ";
-	std::string name = (boost::format("%s [%i]") % classname % item->getUniqueId()).str();
+	os << dot_id(item) << " ";
+	std::string name = (boost::format("%s [%i]") % classname % escape(item->getUniqueId())).str();
 	if( !item->getLabel().empty() )
-	    name = item->getLabel() + "\\n" + name;
+	    name = escape(item->getLabel()) + "\\n" + name;
 
 	if( dynamic_cast<FrameNode*>(item) )
 	{
@@ -63,8 +74,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::frameNodeTreeType::value_type& pair, env->frameNodeTree )
     {
 	os 
-	    << "g" << dot_id(pair.first)
-	    << " -> g" << dot_id(pair.second)
+	    << dot_id(pair.first)
+	    << " -> " << dot_id(pair.second)
 	    << std::endl;
     }
 
@@ -72,8 +83,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::layerTreeType::value_type& pair, env->layerTree )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << " [style=dotted]"
 	    << std::endl;
     }
@@ -82,8 +93,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::operatorGraphType::value_type& pair, env->operatorGraphInput )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << std::endl;
     }
 
@@ -91,8 +102,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::operatorGraphType::value_type& pair, env->operatorGraphOutput )
     {
 	os 
-	    << "g" << dot_id(pair.first)
-	    << " -> g" << dot_id(pair.second)
+	    << dot_id(pair.first)
+	    << " -> " << dot_id(pair.second)
 	    << std::endl;
     }
 
@@ -100,8 +111,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::cartesianMapGraphType::value_type& pair, env->cartesianMapGraph )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << " [shape=dot]"
 	    << std::endl;
     }
-- 
2.43.0


From 03dbb1f52952e176cc0e8c6b756650e4ec54b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:02 +0000
Subject: [PATCH 163/193] fix: GraphViz: items that are no frames, operators or
 layers

---
 src/tools/GraphViz.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/GraphViz.cpp b/src/tools/GraphViz.cpp
index 7bf30de..d902083 100644
--- a/src/tools/GraphViz.cpp
+++ b/src/tools/GraphViz.cpp
@@ -44,6 +44,9 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 	if( !item->getLabel().empty() )
 	    name = escape(item->getLabel()) + "\\n" + name;
 
+	if( !dynamic_cast<FrameNode*>(item) && !dynamic_cast<Operator*>(item) && !dynamic_cast<Layer*>(item) )
+	    os << "[label=\"" << name << "\"";
+
 	if( dynamic_cast<FrameNode*>(item) )
 	{
 	    FrameNode* fn = dynamic_cast<FrameNode*>(item);
-- 
2.43.0


From d6e63a281875e84ea03ea78fc5a682f377826e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:02 +0000
Subject: [PATCH 164/193] fix: GraphViz: files that can not be written

---
 src/tools/GraphViz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/GraphViz.cpp b/src/tools/GraphViz.cpp
index d902083..c54103d 100644
--- a/src/tools/GraphViz.cpp
+++ b/src/tools/GraphViz.cpp
@@ -27,6 +27,8 @@ static std::string dot_id(envire::EnvironmentItem* item)
 void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 {
     std::ofstream os(outputfile.c_str());
+    if( !os )
+	throw std::runtime_error("GraphViz: could not open " + outputfile + " for writing");
 
     os << "digraph G {" << std::endl;
 
-- 
2.43.0


From 04af1bd886533e2e53fe0c43efb5a0cc9c1ae811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 165/193] fix: Projection: transform of the root node

---
 src/operators/Projection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/Projection.cpp b/src/operators/Projection.cpp
index 939cdf4..a991a31 100644
--- a/src/operators/Projection.cpp
+++ b/src/operators/Projection.cpp
@@ -74,7 +74,7 @@ bool Projection::updateElevationMap()
 	
 	for(size_t i=0;i<points.size();i++)
 	{
-	    Eigen::Vector3d p = env->getRootNode()->getTransform() * C_m2g * points[i];
+	    Eigen::Vector3d p = C_m2g * points[i];
 
 	    size_t x, y;
 	    if( grid->toGrid( p.x(), p.y(), x, y ) )
-- 
2.43.0


From 8c0995bcffc66e52a31e36071f71bbd5a78e86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 166/193] fix: Projection: cells outside of the convex hull of
 the points

---
 src/operators/Projection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operators/Projection.cpp b/src/operators/Projection.cpp
index a991a31..e00e97e 100644
--- a/src/operators/Projection.cpp
+++ b/src/operators/Projection.cpp
@@ -145,7 +145,10 @@ bool Projection::interpolateMap(const std::string& type)
 		Eigen::Vector3d b;
 		
 		Delaunay::Face_handle face = dt.locate( Point(x,y,0) );
-		if( face == NULL || face->vertex(0) == NULL || face->vertex(1) == NULL || face->vertex(2) == NULL)
+		// cells outside of the convex hull have no value
+		if( face == NULL || dt.is_infinite( face ) )
+		    continue;
+		if( face->vertex(0) == NULL || face->vertex(1) == NULL || face->vertex(2) == NULL)
 		    continue;
 
 		for(int i=0;i<3;i++)
-- 
2.43.0


From 623f4a22a0f8b02c694594ddb6b1a15fbe3a5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 167/193] fix: Projection: gaps in the last row and column

---
 src/operators/Projection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/Projection.cpp b/src/operators/Projection.cpp
index e00e97e..fa805e0 100644
--- a/src/operators/Projection.cpp
+++ b/src/operators/Projection.cpp
@@ -131,9 +131,9 @@ bool Projection::interpolateMap(const std::string& type)
 	}
     }
 
-    for(size_t x=min_width;x<max_width;x++)
+    for(size_t x=min_width;x<=max_width;x++)
     {
-	for(size_t y=min_height;y<max_height;y++)
+	for(size_t y=min_height;y<=max_height;y++)
 	{
 	    if( fabs( data[x][y] ) == std::numeric_limits<double>::infinity() )
 	    {
-- 
2.43.0


From 9d2e42326e5f7617ae83ffd53ade080c20779110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 168/193] fix: Projection: missing output, or inputs that are
 not pointclouds

---
 src/operators/Projection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operators/Projection.cpp b/src/operators/Projection.cpp
index fa805e0..6b243d7 100644
--- a/src/operators/Projection.cpp
+++ b/src/operators/Projection.cpp
@@ -53,8 +53,7 @@ bool Projection::updateAll()
 
 bool Projection::updateElevationMap()
 {
-    // TODO add checking of connections
-    ElevationGrid* grid = static_cast<envire::ElevationGrid*>(*env->getOutputs(this).begin());
+    ElevationGrid* grid = env->getOutput<ElevationGrid*>(this);
 
     ElevationGrid::ArrayType& elv_min(grid->getGridData(ElevationGrid::ELEVATION_MIN));
     ElevationGrid::ArrayType& elv_max(grid->getGridData(ElevationGrid::ELEVATION_MAX));
@@ -67,6 +66,8 @@ bool Projection::updateElevationMap()
     for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ )
     {
 	Pointcloud* mesh = dynamic_cast<envire::Pointcloud*>(*it);
+	if( !mesh )
+	    throw std::runtime_error("Projection: input is not a pointcloud.");
 
 	FrameNode::TransformType C_m2g = env->relativeTransform( mesh->getFrameNode(), grid->getFrameNode() );
 
@@ -90,8 +91,7 @@ bool Projection::updateElevationMap()
 
 bool Projection::interpolateMap(const std::string& type)
 {
-    // TODO add checking of connections
-    ElevationGrid* grid = static_cast<envire::ElevationGrid*>(*env->getOutputs(this).begin());
+    ElevationGrid* grid = env->getOutput<ElevationGrid*>(this);
 
     if( !grid->hasData( type ) )
 	return false;
-- 
2.43.0


From c01ac8d5f19c03b50b4642b3214744a637a6d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 169/193] fix: SimplifyPointcloud: number of neighbours for
 smoothing

---
 src/operators/SimplifyPointcloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/SimplifyPointcloud.cpp b/src/operators/SimplifyPointcloud.cpp
index 18f3886..f1cf0d3 100644
--- a/src/operators/SimplifyPointcloud.cpp
+++ b/src/operators/SimplifyPointcloud.cpp
@@ -129,7 +129,7 @@ bool SimplifyPointcloud::updateAll()
 
     if( smoothNeighbours > 0 )
     {
-	const int sm_neighbors = 24; // considers 24 nearest neighbor points
+	const int sm_neighbors = smoothNeighbours; // considers this many nearest neighbor points
 	CGAL::jet_smooth_point_set<Concurrency_tag>(points.begin(), points.end(),
 		CGAL::Nth_of_tuple_property_map<1,IndexedPoint>(),
 		sm_neighbors);
-- 
2.43.0


From 2dcfc20e4e0116f29ce501b15bf7ac3cc1af07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 170/193] fix: SimplifyPointcloud: missing clouds, or one cloud
 as input and output

---
 src/operators/SimplifyPointcloud.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/operators/SimplifyPointcloud.cpp b/src/operators/SimplifyPointcloud.cpp
index f1cf0d3..ab4caef 100644
--- a/src/operators/SimplifyPointcloud.cpp
+++ b/src/operators/SimplifyPointcloud.cpp
@@ -64,11 +64,10 @@ bool SimplifyPointcloud::updateAll()
     // we'll convert the input pc to cgal first and convert back afterwards
     // probably not fully efficient, but easiest way for now
 
-    Pointcloud* pc_in = static_cast<envire::Pointcloud*>(*env->getInputs(this).begin());
-    assert(pc_in);
-
-    Pointcloud* pc_out = static_cast<envire::Pointcloud*>(*env->getOutputs(this).begin());
-    assert(pc_out);
+    Pointcloud* pc_in = env->getInput<Pointcloud*>(this);
+    Pointcloud* pc_out = env->getOutput<Pointcloud*>(this);
+    if( pc_in == pc_out )
+	throw std::runtime_error("SimplifyPointcloud needs different clouds as input and output.");
 
     typedef CGAL::Exact_predicates_inexact_constructions_kernel Kernel;
     typedef Kernel::Point_3 Point;
-- 
2.43.0


From e342e54dfcfae4a484ffae1fc234604f69441825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 171/193] fix: SimplifyPointcloud: replace the content of the
 output

---
 src/operators/SimplifyPointcloud.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/SimplifyPointcloud.cpp b/src/operators/SimplifyPointcloud.cpp
index ab4caef..f1b1fc3 100644
--- a/src/operators/SimplifyPointcloud.cpp
+++ b/src/operators/SimplifyPointcloud.cpp
@@ -136,7 +136,8 @@ bool SimplifyPointcloud::updateAll()
 	std::cout << "smoothed points " << std::endl;
     }
 
-    // copy back into pointcloud structure
+    // copy back into pointcloud structure, replacing its content
+    pc_out->clear();
     std::vector<Eigen::Vector3d>
 	*normals = 0, *normals_in = 0,
 	*colors = 0, *colors_in = 0;
-- 
2.43.0


From 7e9011425d6d5bf48e4c4e7c396f9d89fdc58a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 172/193] fix: SimplifyPointcloud: clouds without points

---
 src/operators/SimplifyPointcloud.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operators/SimplifyPointcloud.cpp b/src/operators/SimplifyPointcloud.cpp
index f1b1fc3..eaab065 100644
--- a/src/operators/SimplifyPointcloud.cpp
+++ b/src/operators/SimplifyPointcloud.cpp
@@ -100,7 +100,7 @@ bool SimplifyPointcloud::updateAll()
 	std::cout << "simplified to " << points.size() << std::endl;
     }
 
-    if( computeSpacing )
+    if( computeSpacing && !points.empty() )
     {
 	// compute average spacing
 	const unsigned int as_neighbors = 6; // 1 ring
@@ -112,7 +112,7 @@ bool SimplifyPointcloud::updateAll()
 	std::cout << "computed spacing " << average_spacing << std::endl;
     }
 
-    if( outlierPercentage > 0 )
+    if( outlierPercentage > 0 && !points.empty() )
     {
 	// Removes outliers using erase-remove idiom.
 	// The Dereference_property_map property map can be omitted here as it is the default value.
@@ -126,7 +126,7 @@ bool SimplifyPointcloud::updateAll()
 	std::cout << "removed outliers. total points " << points.size() << std::endl;
     }
 
-    if( smoothNeighbours > 0 )
+    if( smoothNeighbours > 0 && !points.empty() )
     {
 	const int sm_neighbors = smoothNeighbours; // considers this many nearest neighbor points
 	CGAL::jet_smooth_point_set<Concurrency_tag>(points.begin(), points.end(),
-- 
2.43.0


From 4c6b780c5ca6744f209691734dec6434a3322863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 173/193] fix: env_add_grid: accept the -frame and -map forms

---
 tools/env_add_grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/env_add_grid.cpp b/tools/env_add_grid.cpp
index cb2ed3c..ba8db73 100644
--- a/tools/env_add_grid.cpp
+++ b/tools/env_add_grid.cpp
@@ -26,7 +26,7 @@ void usage(int exit_code = 0)
 
 int main(int argc, char* argv[])
 {
-    if (argc < 4 || argc > 6 )
+    if (argc < 4 || argc > 7 )
         usage(1);
 
     std::string env_path(argv[1]);
@@ -43,7 +43,7 @@ int main(int argc, char* argv[])
     if (argc > 4)
     {
         std::string mode = argv[4];
-        int next_idx = 5;
+        int next_idx = 4;
         if (mode != "-frame" && mode != "-map")
         {
             // assume this is a map type
@@ -61,6 +61,8 @@ int main(int argc, char* argv[])
                 frame_id = argv[next_idx + 1];
             else if (mode == "-map")
                 map_id = argv[next_idx + 1];
+            else
+                usage(1);
         }
     }
 
-- 
2.43.0


From 5b2ede60a219b8555fbe85c3d6e544679c43afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 174/193] fix: env_add_grid: unknown frames, maps and types

---
 tools/env_add_grid.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tools/env_add_grid.cpp b/tools/env_add_grid.cpp
index ba8db73..2d25d73 100644
--- a/tools/env_add_grid.cpp
+++ b/tools/env_add_grid.cpp
@@ -91,9 +91,14 @@ int main(int argc, char* argv[])
                 input->getWidth(), input->getHeight(),
                 input->getScaleX(), input->getScaleY(),
                 input->getOffsetX(), input->getOffsetY());
-        env->attachItem(target.get());
-
         envire::FrameNode::Ptr frame = env->getItem<envire::FrameNode>(frame_id);
+        if (!target || !frame)
+        {
+            std::cerr << map_type << " is no grid type, or the frame " << frame_id << " does not exist" << std::endl;
+            return 1;
+        }
+
+        env->attachItem(target.get());
         target->setFrameNode(frame.get());
 
         frame_id = "";
@@ -103,6 +108,11 @@ int main(int argc, char* argv[])
     if (frame_id != "")
     {
         envire::FrameNode::Ptr frame = env->getItem<envire::FrameNode>(frame_id);
+        if (!frame)
+        {
+            std::cerr << "specified frame ID " << frame_id << " does not exist" << std::endl;
+            return 1;
+        }
         env->attachItem(input.get());
         input->setFrameNode(frame.get());
         map_id = input->getUniqueId();
@@ -110,6 +120,11 @@ int main(int argc, char* argv[])
     else
     {
         envire::GridBase::Ptr grid = env->getItem<envire::GridBase>(map_id);
+        if (!grid)
+        {
+            std::cerr << "specified map ID " << map_id << " does not exist" << std::endl;
+            return 1;
+        }
         grid->copyBandFrom(*input, target_band);
     }
 
-- 
2.43.0


From ca0ccd742f821bf2f2d1da383947911986eb5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 175/193] fix: env_create_grid: accept all documented forms of
 the arguments

---
 tools/env_create_grid.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/tools/env_create_grid.cpp b/tools/env_create_grid.cpp
index 03ecbc0..82f4af3 100644
--- a/tools/env_create_grid.cpp
+++ b/tools/env_create_grid.cpp
@@ -89,25 +89,28 @@ int main(int argc, char* argv[])
                 offset_y = boost::lexical_cast<double>(argv[argi++]);
             }
 
-            if ( strcmp( argv[argi], "-frame") ) 
-	    {
-		std::cerr << "expected -frame argument" << std::endl;
-		usage(1);
-	    }
-	    argi++;
-
-            if (argc < 11)
-            {
-                std::cerr << "too little arguments provided" << std::endl;
-                usage(1);
-            }
-
-            std::string frame_id(argv[argi++]);
-            base_frame = env->getItem<FrameNode>(frame_id).get();
-            if (!base_frame)
+            if (argi < argc)
             {
-                std::cerr << "specified frame ID " << frame_id << " does not exist" << std::endl;
-                exit(1);
+                if ( strcmp( argv[argi], "-frame") ) 
+                {
+                    std::cerr << "expected -frame argument" << std::endl;
+                    usage(1);
+                }
+                argi++;
+
+                if (argi >= argc)
+                {
+                    std::cerr << "too little arguments provided" << std::endl;
+                    usage(1);
+                }
+
+                std::string frame_id(argv[argi++]);
+                base_frame = env->getItem<FrameNode>(frame_id).get();
+                if (!base_frame)
+                {
+                    std::cerr << "specified frame ID " << frame_id << " does not exist" << std::endl;
+                    exit(1);
+                }
             }
 
 	    if( argi < argc && !strcmp( argv[argi], "-bands" ) )
-- 
2.43.0


From 3f0c506c81d9ee1d09939c798ae02a221eeae075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 176/193] fix: env_create_grid: maps without frame, and types
 that are no grids

---
 tools/env_create_grid.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/env_create_grid.cpp b/tools/env_create_grid.cpp
index 82f4af3..f966631 100644
--- a/tools/env_create_grid.cpp
+++ b/tools/env_create_grid.cpp
@@ -62,7 +62,8 @@ int main(int argc, char* argv[])
         offset_y = map->getOffsetY();
         width  = map->getWidth();
         height = map->getHeight();
-        base_frame = map->getFrameNode();
+        if (map->getFrameNode())
+            base_frame = map->getFrameNode();
     }
     else
     {
@@ -134,6 +135,11 @@ int main(int argc, char* argv[])
 
     GridBase::Ptr grid = GridBase::create(grid_type,
             width, height, scale_x, scale_y, offset_x, offset_y);
+    if (!grid)
+    {
+        std::cerr << grid_type << " is not a grid type" << std::endl;
+        return 1;
+    }
 
     // if there are bands, try to create them
     if( !bands.empty() )
-- 
2.43.0


From 71c535fce481b1398af0f86c7973af637a55bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 177/193] fix: env_grid_to_mls, env_mls_to_grid,
 env_grid_illumination: unknown maps

---
 tools/env_grid_illumination.cpp | 5 +++++
 tools/env_grid_to_mls.cpp       | 5 +++++
 tools/env_mls_to_grid.cpp       | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/tools/env_grid_illumination.cpp b/tools/env_grid_illumination.cpp
index 2a62856..54765ee 100644
--- a/tools/env_grid_illumination.cpp
+++ b/tools/env_grid_illumination.cpp
@@ -37,6 +37,11 @@ int main(int argc, char* argv[])
     boost::scoped_ptr<envire::Environment> env(Environment::unserialize(env_path));
 
     envire::GridBase::Ptr input(env->getItem<envire::GridBase>(grid_map_id));
+    if (!input)
+    {
+        std::cerr << "the environment has no grid " << grid_map_id << std::endl;
+        return 1;
+    }
     envire::GridIllumination::Ptr op = new envire::GridIllumination;
     env->attachItem( op.get() );
     op->setOutputBand( grid_band_name );
diff --git a/tools/env_grid_to_mls.cpp b/tools/env_grid_to_mls.cpp
index a6843b4..a551f8e 100644
--- a/tools/env_grid_to_mls.cpp
+++ b/tools/env_grid_to_mls.cpp
@@ -32,6 +32,11 @@ int main(int argc, char* argv[])
 
     envire::GridBase::Ptr input(env->getItem<envire::GridBase>(grid_map_id));
     envire::MLSGrid::Ptr  output(env->getItem<envire::MLSGrid>(mls_map_id));
+    if (!input || !output)
+    {
+        std::cerr << "the environment has no grid " << grid_map_id << " or no MLS " << mls_map_id << std::endl;
+        return 1;
+    }
     envire::GridFloatToMLS::Ptr op = new envire::GridFloatToMLS;
     env->attachItem(op.get());
     op->setInput(input.get(), grid_band_name);
diff --git a/tools/env_mls_to_grid.cpp b/tools/env_mls_to_grid.cpp
index 0c9422a..1a4f4c5 100644
--- a/tools/env_mls_to_grid.cpp
+++ b/tools/env_mls_to_grid.cpp
@@ -32,6 +32,11 @@ int main(int argc, char* argv[])
 
     envire::MLSGrid::Ptr  input(env->getItem<envire::MLSGrid>(mls_map_id));
     envire::Grid<double>::Ptr output(env->getItem< envire::Grid<double> >(grid_map_id));
+    if (!input || !output)
+    {
+        std::cerr << "the environment has no MLS " << mls_map_id << " or no grid " << grid_map_id << std::endl;
+        return 1;
+    }
     envire::MLSToGrid::Ptr op = new envire::MLSToGrid;
     env->attachItem(op.get());
     op->setInput(input.get());
-- 
2.43.0


From d615c033a0715a694e6220814f37c0e6600c3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 178/193] fix: env_simplify: the cell size is optional

---
 tools/env_simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/env_simplify.cpp b/tools/env_simplify.cpp
index 024280a..0529caf 100644
--- a/tools/env_simplify.cpp
+++ b/tools/env_simplify.cpp
@@ -21,7 +21,7 @@ int main( int argc, char* argv[] )
 	exit(0);
     }
     double cell_size = 0.05;
-    if( argc >=3 )
+    if( argc >= 4 )
 	cell_size = boost::lexical_cast<double>( argv[3] );
     std::cout << "using cell size: " << cell_size << std::endl;
 
-- 
2.43.0


From 77a695c3a9346b1d9ba42a16720730f5f95300ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 179/193] fix: env_slam6d: scans of unknown pointclouds

---
 tools/env_slam6d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/env_slam6d.cpp b/tools/env_slam6d.cpp
index 4cc3e66..2118dfc 100644
--- a/tools/env_slam6d.cpp
+++ b/tools/env_slam6d.cpp
@@ -163,6 +163,11 @@ int main( int argc, char* argv[] )
 
 		// write transformation to framenode
 		Pointcloud* pc = env->getItem<Pointcloud>( unique_id ).get();
+		if( !pc || !pc->getFrameNode() )
+		{
+		    cout << unique_id << " is not a pointcloud with a frame." << endl;
+		    continue;
+		}
 		pc->getFrameNode()->setTransform( trans );
 		
 		cout << "updated pointcloud " << unique_id << endl;
-- 
2.43.0


From 97a7dc66433ba8db38177301192c3570d351783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 180/193] fix: env_traversability: the number of arguments

---
 tools/env_traversability.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/env_traversability.cpp b/tools/env_traversability.cpp
index d560578..5cf272b 100644
--- a/tools/env_traversability.cpp
+++ b/tools/env_traversability.cpp
@@ -10,7 +10,7 @@ using namespace std;
      
 int main( int argc, char* argv[] )
 {
-    if( argc < 2 || argc > 8)
+    if( argc < 3 || argc > 6)
     {
 	std::cout << "usage: env_traversability input maximum_slope [class_count [min_width [ground_clearance]]]" << std::endl;
         std::cout << "  generates a classified map of traversabilities based on the given map (a single map must contain all the necessary bands)" << std::endl;
@@ -40,15 +40,15 @@ int main( int argc, char* argv[] )
 
     double maximum_slope = boost::lexical_cast<double>(argv[2]);
     int class_count = 10;
-    if (argc > 2)
+    if (argc > 3)
         class_count = boost::lexical_cast<int>(argv[3]);
 
     double min_width = 0.5;
-    if (argc > 3)
+    if (argc > 4)
         min_width = boost::lexical_cast<double>(argv[4]);
 
     double ground_clearance = 0;
-    if (argc > 4)
+    if (argc > 5)
         ground_clearance = boost::lexical_cast<double>(argv[5]);
 
     // Create the convertion operator and run it
-- 
2.43.0


From 616e7ecc05935ef3a29d18768648e090b51f3526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 181/193] fix: env_traversability: offset of the source map

---
 tools/env_traversability.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/env_traversability.cpp b/tools/env_traversability.cpp
index 5cf272b..05fbaf4 100644
--- a/tools/env_traversability.cpp
+++ b/tools/env_traversability.cpp
@@ -34,7 +34,8 @@ int main( int argc, char* argv[] )
 
     boost::intrusive_ptr< SimpleTraversability::OutputLayer > output = new SimpleTraversability::OutputLayer(
             input->getWidth(), input->getHeight(),
-            input->getScaleX(), input->getScaleY());
+            input->getScaleX(), input->getScaleY(),
+            input->getOffsetX(), input->getOffsetY());
     env->attachItem(output.get());
     output->setFrameNode(input->getFrameNode());
 
-- 
2.43.0


From 6942830ade974c9bf45abe384d7fe0be696e2472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 182/193] fix: env_mls_slopes: type and offset of the slope map

---
 tools/env_mls_slopes.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/env_mls_slopes.cpp b/tools/env_mls_slopes.cpp
index 45e0399..7ef3bf3 100644
--- a/tools/env_mls_slopes.cpp
+++ b/tools/env_mls_slopes.cpp
@@ -40,9 +40,10 @@ int main( int argc, char* argv[] )
         mls = env->getItem<MLSGrid>();
     }
 
-    boost::intrusive_ptr< envire::Grid<double> > grid = new envire::Grid<double>(
+    boost::intrusive_ptr< envire::Grid<float> > grid = new envire::Grid<float>(
             mls->getWidth(), mls->getHeight(),
-            mls->getScaleX(), mls->getScaleY());
+            mls->getScaleX(), mls->getScaleY(),
+            mls->getOffsetX(), mls->getOffsetY());
     env->attachItem(grid.get());
     grid->setFrameNode(mls->getFrameNode());
 
-- 
2.43.0


From fe991ae9f60c5d0fa30f173290e94ebcf501b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 183/193] fix: env_mls, env_dem: cover the far edge of the
 pointclouds

---
 tools/env_dem.cpp | 2 +-
 tools/env_mls.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/env_dem.cpp b/tools/env_dem.cpp
index 9ca3298..7cec49b 100644
--- a/tools/env_dem.cpp
+++ b/tools/env_dem.cpp
@@ -52,7 +52,7 @@ int main( int argc, char* argv[] )
 
     // create the grid at the right size
     envire::Pointcloud::Extents::VectorType dim = extents.max() - extents.min();
-    envire::ElevationGrid *grid = new envire::ElevationGrid(dim.x()/res, dim.y()/res, res, res);
+    envire::ElevationGrid *grid = new envire::ElevationGrid(size_t(dim.x()/res) + 1, size_t(dim.y()/res) + 1, res, res);
     env->attachItem( grid );
     grid->setFrameNode( fm1 );
 
diff --git a/tools/env_mls.cpp b/tools/env_mls.cpp
index 1b65dc7..f348230 100644
--- a/tools/env_mls.cpp
+++ b/tools/env_mls.cpp
@@ -110,7 +110,7 @@ int main( int argc, char* argv[] )
 
     // create the grid at the right size
     envire::Pointcloud::Extents::VectorType dim = extents.max() - extents.min();
-    envire::MultiLevelSurfaceGrid *grid = new envire::MultiLevelSurfaceGrid(dim.x()/res, dim.y()/res, res, res);
+    envire::MultiLevelSurfaceGrid *grid = new envire::MultiLevelSurfaceGrid(size_t(dim.x()/res) + 1, size_t(dim.y()/res) + 1, res, res);
     env->attachItem( grid );
     grid->setFrameNode( fm1 );
     grid->setGapSize( gapSize );
-- 
2.43.0


From cea7b7e0a4b367ba34b1804c978775e3e7645381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 184/193] fix: env_mls_trajectory: end of the trajectory

---
 tools/env_mls_trajectory.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tools/env_mls_trajectory.cpp b/tools/env_mls_trajectory.cpp
index 01d77f2..ed8cd1e 100644
--- a/tools/env_mls_trajectory.cpp
+++ b/tools/env_mls_trajectory.cpp
@@ -14,7 +14,7 @@ using namespace std;
      
 int main( int argc, char* argv[] )
 {
-    if( argc < 2 ) 
+    if( argc < 3 ) 
     {
 	std::cout << "usage: env_mls input trajectory" << std::endl;
 	exit(0);
@@ -27,10 +27,9 @@ int main( int argc, char* argv[] )
     // get trajectory
     std::ifstream file( argv[2] );
     
-    while( !file.eof() )
+    double x,y,z;
+    while( file >> x >> y >> z )
     {
-	double x,y,z;
-	file >> x >> y >> z; 
 	Eigen::Vector3d p( x, y, z );
 
 	for( std::vector<MLSGrid*>::iterator it=items.begin(); it != items.end(); it++ )
-- 
2.43.0


From 287d5d002fd500a208e0128b96d2875839e8771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 185/193] fix: env_grid_add_noise: values of options that are
 not given

---
 tools/env_grid_add_noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/env_grid_add_noise.cpp b/tools/env_grid_add_noise.cpp
index 94e407a..37fba53 100644
--- a/tools/env_grid_add_noise.cpp
+++ b/tools/env_grid_add_noise.cpp
@@ -56,7 +56,7 @@ int main(int argc, char* argv[])
 {
     string input_env, output_env;
     position center, win;
-    float scale, angle, sigma, radius;
+    float scale = 1, angle = 0, sigma = 1, radius = 0;
 
     po::options_description desc("Allowed options");
     desc.add_options()
-- 
2.43.0


From 033c96944abd32b5a56070f9a94366b9c87b39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:50 +0000
Subject: [PATCH 186/193] fix: Grid: copyBandFrom of a grid of another size

---
 src/maps/Grid.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index bf24285..0b9cbdd 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -305,6 +305,8 @@ namespace envire
          *
          * @throw std::bad_cast if the source grid is not of the same cell type
          * than this grid
+         * @throw std::runtime_error if the source grid is not of the same size
+         * than this grid
          */
         void copyBandFrom(GridBase const& _source, std::string const& source_band, std::string const& _target_band = "")
         {
@@ -312,6 +314,8 @@ namespace envire
             std::string target_band = _target_band;
             if (_target_band.empty())
                 target_band = source_band;
+            if (source.getCellSizeX() != getCellSizeX() || source.getCellSizeY() != getCellSizeY())
+                throw std::runtime_error("cannot copy a band between grids of different size");
 
             getGridData(target_band) = source.getGridData(source_band);
             std::pair<T, bool> no_data = source.getNoData(source_band);
-- 
2.43.0


From 532b559b4be933560d5e8e231a6966695252ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 187/193] fix: Transform: uncertainty of default constructed
 points and transforms

---
 src/core/Transform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 0d2d2ed..d68a0f8 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -5,13 +5,15 @@
 
 using namespace envire;
 
-PointWithUncertainty::PointWithUncertainty() {}
+PointWithUncertainty::PointWithUncertainty() 
+    : uncertain(false) {}
 PointWithUncertainty::PointWithUncertainty( const Point& point ) 
     : point( point ), uncertain(false) {}
 PointWithUncertainty::PointWithUncertainty( const Point& point, const Covariance& cov ) 
     : point( point ), cov( cov ), uncertain(true) {}
 
-TransformWithUncertainty::TransformWithUncertainty() {}
+TransformWithUncertainty::TransformWithUncertainty() 
+    : uncertain(false) {}
 TransformWithUncertainty::TransformWithUncertainty( const Transform& trans )
     : trans( trans ), cov( Covariance::Zero() ), uncertain(false) {}
 TransformWithUncertainty::TransformWithUncertainty( const base::samples::RigidBodyState& rbs )
-- 
2.43.0


From ee8bb12d20d1ff23d243a8eaa883a5c13027cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 188/193] fix: look-up tables: free the tables, let copies have
 their own

---
 src/tools/BoxLookUpTable.cpp    |  9 +++------
 src/tools/BoxLookUpTable.hpp    |  4 +++-
 src/tools/RadialLookUpTable.cpp | 12 +++---------
 src/tools/RadialLookUpTable.hpp |  6 ++++--
 4 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 2408ea8..19193fd 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -8,7 +8,7 @@
 namespace envire
 {
 
-BoxLookUpTable::BoxLookUpTable() : scale(0), sizeX(0), sizeY(0), maxDistFromBox(0), distanceTable(NULL)
+BoxLookUpTable::BoxLookUpTable() : scale(0), sizeX(0), sizeY(0), maxDistFromBox(0)
 {
 
 }
@@ -50,10 +50,7 @@ void BoxLookUpTable::recompute(double scalei, double sizeXi, double sizeYi, doub
     
 void BoxLookUpTable::computeDistances()
 {
-    if(distanceTable)
-        delete[] distanceTable;
-        
-    distanceTable = new double[cellSizeX * cellSizeY];
+    distanceTable.assign(cellSizeX * cellSizeY, 0);
     
     for(int y = 0; y < cellSizeY; y++)
     {
@@ -124,7 +121,7 @@ void BoxLookUpTable::computeDistances()
 
 const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
 {
-    if(!distanceTable)
+    if(distanceTable.empty())
         throw std::runtime_error("BoxLookUpTable::Lookup table is not computed");    
 
     int x = (xp + centerX) / scale;
diff --git a/src/tools/BoxLookUpTable.hpp b/src/tools/BoxLookUpTable.hpp
index 5ed19f7..b0d3baf 100644
--- a/src/tools/BoxLookUpTable.hpp
+++ b/src/tools/BoxLookUpTable.hpp
@@ -1,6 +1,8 @@
 #ifndef ENVIRE_BOXLOOKUPTABLE_HPP
 #define ENVIRE_BOXLOOKUPTABLE_HPP
 
+#include <vector>
+
 namespace envire
 {
 
@@ -23,7 +25,7 @@ private:
     double sizeX;
     double sizeY;
     double maxDistFromBox;
-    double *distanceTable;
+    std::vector<double> distanceTable;
     
     int cellSizeX;
     int cellSizeY;
diff --git a/src/tools/RadialLookUpTable.cpp b/src/tools/RadialLookUpTable.cpp
index 36c093c..3458ea4 100644
--- a/src/tools/RadialLookUpTable.cpp
+++ b/src/tools/RadialLookUpTable.cpp
@@ -3,7 +3,7 @@
 
 namespace envire {
 
-RadialLookUpTable::RadialLookUpTable() : numElementsPerLine(0), distanceTable(0), angleTable(0), scale(0), maxRadius(0)
+RadialLookUpTable::RadialLookUpTable() : numElementsPerLine(0), scale(0), maxRadius(0)
 {
     
 }
@@ -26,10 +26,7 @@ void RadialLookUpTable::recompute(double scale, double maxRadius)
 
 void RadialLookUpTable::computeDistances()
 {
-    if(distanceTable)
-	delete[] distanceTable;
-    
-    distanceTable = new double[numElementsPerLine * numElementsPerLine];
+    distanceTable.assign(numElementsPerLine * numElementsPerLine, 0);
     for(int y = 0; y < numElementsPerLine; y++)
     {
 	for(int x = 0; x < numElementsPerLine;x++)
@@ -43,10 +40,7 @@ void RadialLookUpTable::computeDistances()
 
 void RadialLookUpTable::computeAngles()
 {
-    if(angleTable)
-	delete[] angleTable;
-    
-    angleTable = new double[numElementsPerLine * numElementsPerLine];
+    angleTable.assign(numElementsPerLine * numElementsPerLine, 0);
     for(int y = 0; y < numElementsPerLine; y++)
     {
 	for(int x = 0; x < numElementsPerLine;x++)
diff --git a/src/tools/RadialLookUpTable.hpp b/src/tools/RadialLookUpTable.hpp
index 15626de..0d2277b 100644
--- a/src/tools/RadialLookUpTable.hpp
+++ b/src/tools/RadialLookUpTable.hpp
@@ -1,6 +1,8 @@
 #ifndef ENVIRE_RADIALLOOKUPTABLE_HPP
 #define ENVIRE_RADIALLOOKUPTABLE_HPP
 
+#include <vector>
+
 namespace envire
 {
 
@@ -21,8 +23,8 @@ private:
     
     int numElementsPerLine;
     int numElementsPerLineHalf;
-    double *distanceTable;
-    double *angleTable;
+    std::vector<double> distanceTable;
+    std::vector<double> angleTable;
     double scale;
     double maxRadius;
 };
-- 
2.43.0


From 0747ac0967284569bd9d195c95f66f3b8ce30451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 189/193] fix: Serialization: free the buffers of values that
 are not written to a file

---
 src/core/Serialization.cpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index aa092ed..ba81887 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -32,9 +32,6 @@ namespace envire
 
         int current_node;
 
-        vector<yaml_char_t*> buffers;
-        
-        
         YAMLSerializationImpl();
         
         yaml_node_t* getNode(int index);
@@ -59,11 +56,11 @@ namespace envire
 	{
 	    size_t len = value.length();
 
-	    yaml_char_t* buf = new yaml_char_t[len];
-	    value.copy(reinterpret_cast<char*>(buf), len);
-	    buffers.push_back( buf );
+	    // the document takes a copy of the value
+	    std::vector<yaml_char_t> buf( value.begin(), value.end() );
+	    buf.push_back( 0 );
 
-	    int key_index = yaml_document_add_scalar( &document, NULL, buf, len, style );
+	    int key_index = yaml_document_add_scalar( &document, NULL, &buf[0], len, style );
 
 	    return key_index;
 	}
@@ -444,20 +441,8 @@ bool FileSerialization::writeToFile( Environment *env, const std::string &path )
     }
 
     // the emitter will destroy the document objects for us.
-    // what it will not do however, is destroy the buffers for the scalar values.
-    // (damn... maybe using an object was not the smartest choice. Events would
-    // have done just as fine... next time)
-    // So what we have to do is extract a list of all the scalars here and free them
-    // afterwards
-
     int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
 
-    for(vector<yaml_char_t*>::iterator it=yamlSerialization->buffers.begin();it<yamlSerialization->buffers.end();it++)
-    {
-	delete[] *it;
-    }
-    yamlSerialization->buffers.clear();
-
     yaml_emitter_delete(&yamlSerialization->emitter);
     yaml_document_delete(&yamlSerialization->document);
     fclose( output );
@@ -823,11 +808,6 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     }
 
     // clean up
-    for(vector<yaml_char_t*>::iterator it=yamlSerialization->buffers.begin();it<yamlSerialization->buffers.end();it++)
-    {
-        delete[] *it;
-    }
-    yamlSerialization->buffers.clear();
     yaml_emitter_delete(&yamlSerialization->emitter);
     yaml_document_delete(&yamlSerialization->document);
     cleanUp();
-- 
2.43.0


From 3547a6a0268af97f7a33a23c5585e6860d825cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:19 +0000
Subject: [PATCH 190/193] fix: Serialization: release files, streams and
 documents when reading or writing fails

---
 src/core/Serialization.cpp | 60 ++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index ba81887..01dbf13 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -23,6 +23,12 @@ namespace fs = boost::filesystem;
 
 namespace envire 
 {
+    // these release what they guard, however the scope is left
+    typedef std::unique_ptr<FILE, int(*)(FILE*)> FileGuard;
+    typedef std::unique_ptr<yaml_parser_t, void(*)(yaml_parser_t*)> ParserGuard;
+    typedef std::unique_ptr<yaml_emitter_t, void(*)(yaml_emitter_t*)> EmitterGuard;
+    typedef std::unique_ptr<yaml_document_t, void(*)(yaml_document_t*)> DocumentGuard;
+
     class YAMLSerializationImpl
     {
     public:
@@ -304,6 +310,11 @@ FileSerialization::FileSerialization()
 
 FileSerialization::~FileSerialization()
 {
+    // streams of an operation, that did not complete
+    for(std::vector<std::ifstream*>::iterator it = ifstreams.begin(); it != ifstreams.end(); it++)
+        delete *it;
+    for(std::vector<std::ofstream*>::iterator it = ofstreams.begin(); it != ofstreams.end(); it++)
+        delete *it;
 }
 
 const std::string FileSerialization::getMapPath() const
@@ -320,44 +331,44 @@ std::istream& FileSerialization::getBinaryInputStream(const std::string &filenam
 {
     boost::filesystem::path fileDir(sceneDir);
     fileDir = fileDir / filename;
-    std::ifstream *is = new std::ifstream(fileDir.string().c_str());
+    std::unique_ptr<std::ifstream> is(new std::ifstream(fileDir.string().c_str()));
     if( !is->is_open() || is->fail() )
     {
         throw NoSuchBinaryStream("could not open file " + filename);
     }
-    ifstreams.push_back(is);
-    return *is;
+    ifstreams.push_back(is.get());
+    return *is.release();
 }
 
 std::ostream& FileSerialization::getBinaryOutputStream(const std::string &filename)
 {
     boost::filesystem::path fileDir(sceneDir);
     fileDir = fileDir / filename;
-    std::ofstream *os = new std::ofstream(fileDir.string().c_str());
+    std::unique_ptr<std::ofstream> os(new std::ofstream(fileDir.string().c_str()));
     if( !os->is_open() || os->fail() )
     {
         throw NoSuchBinaryStream("could not open file " + filename);
     }
-    ofstreams.push_back(os);
-    return *os;
+    ofstreams.push_back(os.get());
+    return *os.release();
 }
 
 bool FileSerialization::writeToFile( Environment *env, const std::string &path )
 {
-    yaml_emitter_initialize(&yamlSerialization->emitter);
     FILE *output = fopen(path.c_str(), "wb");
     if( !output )
 	throw runtime_error("envire: could not open " + path + " for writing");
+    FileGuard file(output, &fclose);
+
+    yaml_emitter_initialize(&yamlSerialization->emitter);
+    EmitterGuard emitter(&yamlSerialization->emitter, &yaml_emitter_delete);
 
     yaml_emitter_set_output_file(&yamlSerialization->emitter, output);
 
     // build up document
     if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
-    {
-	yaml_emitter_delete(&yamlSerialization->emitter);
-	fclose( output );
 	throw std::runtime_error("could not generate yaml document");
-    }
+    DocumentGuard document(&yamlSerialization->document, &yaml_document_delete);
     
     // same as with readFile, creating a dom structure for new is easier.
     int obj_id, link_id, root_id;
@@ -443,10 +454,6 @@ bool FileSerialization::writeToFile( Environment *env, const std::string &path )
     // the emitter will destroy the document objects for us.
     int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
 
-    yaml_emitter_delete(&yamlSerialization->emitter);
-    yaml_document_delete(&yamlSerialization->document);
-    fclose( output );
-    
     // close and delete ofstreams
     if(ofstreams.size() > 0)
     {
@@ -486,8 +493,10 @@ Environment* FileSerialization::readFromFile( const std::string& path )
     FILE *input = fopen(path.c_str(), "rb");
     if( !input )
 	throw runtime_error("envire: could not open " + path + " for reading");
+    FileGuard file(input, &fclose);
 
     yaml_parser_initialize(&yamlSerialization->parser);
+    ParserGuard parser(&yamlSerialization->parser, &yaml_parser_delete);
     yaml_parser_set_input_file(&yamlSerialization->parser, input);
 
     // for now lets ignore SAX-like streaming, and parse the whole
@@ -496,15 +505,13 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 
     if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
     {
-	// doubled the cleanup code... not nice.
 	std::cerr << path << ":" 
 	    << yamlSerialization->parser.problem_mark.line << ":"
 	    << yamlSerialization->parser.problem;
 
-	yaml_parser_delete(&yamlSerialization->parser);
-	fclose(input);
 	throw std::runtime_error("error parsing yaml stream.");
     }
+    DocumentGuard document(&yamlSerialization->document, &yaml_document_delete);
 
     // do the extraction now
     yaml_node_t* root = yaml_document_get_root_node(&yamlSerialization->document);
@@ -617,11 +624,6 @@ Environment* FileSerialization::readFromFile( const std::string& path )
     lastID++;
     env->last_id = lastID;
 
-    // clean up
-    yaml_document_delete(&yamlSerialization->document);
-    yaml_parser_delete(&yamlSerialization->parser);
-    fclose(input);
-    
     // close and delete ifstreams
     if(ifstreams.size() > 0)
     {
@@ -700,6 +702,7 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
 
     // set up yaml document
     yaml_parser_initialize(&yamlSerialization->parser);
+    ParserGuard parser(&yamlSerialization->parser, &yaml_parser_delete);
     
     yaml_parser_set_input_string(&yamlSerialization->parser, reinterpret_cast<const unsigned char*>(bin_item.yamlProperties.data()), bin_item.yamlProperties.size());
     if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
@@ -708,9 +711,9 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
             << yamlSerialization->parser.problem_mark.line << ":"
             << yamlSerialization->parser.problem;
 
-        yaml_parser_delete(&yamlSerialization->parser);
         throw std::runtime_error("error parsing yaml stream.");
     }
+    DocumentGuard document(&yamlSerialization->document, &yaml_document_delete);
     
     // set up yaml node
     yamlSerialization->current_node = -1;
@@ -748,8 +751,6 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     EnvironmentItem* item = SerializationFactory::createObject(bin_item.className, *this);
     
     //clean up
-    yaml_document_delete(&yamlSerialization->document);
-    yaml_parser_delete(&yamlSerialization->parser);
     cleanUp();
     
     return item;
@@ -775,14 +776,13 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // config yaml
     yaml_emitter_initialize(&yamlSerialization->emitter);
+    EmitterGuard emitter(&yamlSerialization->emitter, &yaml_emitter_delete);
     yaml_emitter_set_output(&yamlSerialization->emitter, &appendToVector, &bin_item.yamlProperties);
     
     // build up document
     if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
-    {
-        yaml_emitter_delete(&yamlSerialization->emitter);
         throw std::runtime_error("could not generate yaml document");
-    }
+    DocumentGuard document(&yamlSerialization->document, &yaml_document_delete);
     
     // write document
     int obj_id = yaml_document_add_sequence(&yamlSerialization->document, NULL, YAML_ANY_SEQUENCE_STYLE);
@@ -808,8 +808,6 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     }
 
     // clean up
-    yaml_emitter_delete(&yamlSerialization->emitter);
-    yaml_document_delete(&yamlSerialization->document);
     cleanUp();
     
     return result;
-- 
2.43.0


From e13f93107e02220012f9fc70c8505d716fd45f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:19 +0000
Subject: [PATCH 191/193] fix: LaserScan: no scan left behind when its file can
 not be opened

---
 src/maps/LaserScan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index edbfecc..1409c57 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -82,7 +82,6 @@ LaserScan* LaserScan::importScanFile(const std::string& file, FrameNode* node)
 	throw std::runtime_error("node needs to be attached to environment");
 
     Environment* env = node->getEnvironment();
-    LaserScan* scan = new LaserScan();
 
     Transform transform( Eigen::Matrix4d::Identity() );
 
@@ -92,6 +91,7 @@ LaserScan* LaserScan::importScanFile(const std::string& file, FrameNode* node)
         throw std::runtime_error("Could not open file '" + file + "'.");
     }
     
+    LaserScan* scan = new LaserScan();
     try {
 	scan->parseScan( data, transform );
     }
-- 
2.43.0


From d8738c75b04c64d7567d65c63692ef5be09094ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:19 +0000
Subject: [PATCH 192/193] fix: GridBase: release the properties of a grid that
 can not be created

---
 src/maps/GridBase.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 6cfacd9..b50064f 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -590,7 +590,16 @@ GridBase::Ptr GridBase::create(std::string const& type_name,
     so.write("offsetx", offset_x);
     so.write("offsety", offset_y);
     so.write("map_count", 0);
-    EnvironmentItem::Ptr ptr = SerializationFactory::createObject(type_name, so);
+    EnvironmentItem::Ptr ptr;
+    try
+    {
+        ptr = SerializationFactory::createObject(type_name, so);
+    }
+    catch(...)
+    {
+        so.end();
+        throw;
+    }
     so.end();
     ptr->setUniqueId("");
     return boost::dynamic_pointer_cast<GridBase>(ptr);
-- 
2.43.0


From 82a4d0bcb5410c3ac67387da65804c323203300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 193/193] fix: BinarySerialization: free the first of two
 streams of one name

---
 src/core/Serialization.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 01dbf13..61358c0 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -663,8 +663,12 @@ std::istream& BinarySerialization::getBinaryInputStream(const std::string &filen
 
 std::ostream& BinarySerialization::getBinaryOutputStream(const std::string &filename)
 {
-    std::stringstream* ostream = new std::stringstream();
-    stringstreams[filename] = ostream;
+    // a stream that is asked for again starts over
+    std::stringstream*& ostream = stringstreams[filename];
+    if( !ostream )
+        ostream = new std::stringstream();
+    ostream->clear();
+    ostream->str("");
     return *ostream;
 }
 
@@ -740,10 +744,12 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     {
         if(bin_item.binaryStreams.size() > i)
         {
-            std::stringstream *istream = new std::stringstream();
+            std::stringstream *&istream = stringstreams[bin_item.binaryStreamNames[i]];
+            delete istream; // a name may be there twice
+            istream = 0;
+            istream = new std::stringstream();
             const std::vector<uint8_t> &bin_stream = bin_item.binaryStreams[i];
             std::copy(bin_stream.begin(), bin_stream.end(), ostream_iterator<uint8_t>(*istream));
-            stringstreams[bin_item.binaryStreamNames[i]] = istream;
         }
     }
     
-- 
2.43.0

