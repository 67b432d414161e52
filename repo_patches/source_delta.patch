From 0edfbb8f925f4aaebfdc542eca45f2858c875500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 01/54] fix: SSE colour-matrix copy/accumulate on subsets
 starting at an odd site used aligned accesses

---
 lib/scalarsite_sse/qdp_scalarsite_sse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_sse.cc b/lib/scalarsite_sse/qdp_scalarsite_sse.cc
index 5101ee4..b56a22d 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_sse.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_sse.cc
@@ -617,7 +617,7 @@ void evaluate(OLattice< TCol >& d,
 
   
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_load_ps(r_ptr_v4sf));
+      _mm_storeu_ps( d_ptr_v4sf, _mm_loadu_ps(r_ptr_v4sf));
     }
   
     
@@ -674,8 +674,8 @@ void evaluate(OLattice< TCol >& d,
     
     
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_add_ps( _mm_load_ps(d_ptr_v4sf), 
-					    _mm_load_ps(r_ptr_v4sf) ) );
+      _mm_storeu_ps( d_ptr_v4sf, _mm_add_ps( _mm_loadu_ps(d_ptr_v4sf), 
+					    _mm_loadu_ps(r_ptr_v4sf) ) );
     }
     
     
@@ -731,8 +731,8 @@ void evaluate(OLattice< TCol >& d,
     
     
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_sub_ps( _mm_load_ps( d_ptr_v4sf), 
-					    _mm_load_ps( r_ptr_v4sf) ) );
+      _mm_storeu_ps( d_ptr_v4sf, _mm_sub_ps( _mm_loadu_ps( d_ptr_v4sf), 
+					    _mm_loadu_ps( r_ptr_v4sf) ) );
     }
     
     
-- 
2.43.0


From 540f8e6ebd9c440b7305f1aef6e89056271c3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 02/54] fix: copied or assigned Sets kept subsets pointing into
 the source Set

---
 include/qdp_subset.h | 3 +++
 lib/qdp_subset.cc    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/qdp_subset.h b/include/qdp_subset.h
index 38aa4e9..11b29a6 100644
--- a/include/qdp_subset.h
+++ b/include/qdp_subset.h
@@ -101,6 +101,9 @@ public:
   //! Constructor from a function object
   Set(const SetFunc& fn) {make(fn);}
 
+  //! Copy constructor
+  Set(const Set& s) {*this = s;}
+
   //! Constructor from a function object
   void make(const SetFunc& fn);
 
diff --git a/lib/qdp_subset.cc b/lib/qdp_subset.cc
index 68913b7..3851d43 100644
--- a/lib/qdp_subset.cc
+++ b/lib/qdp_subset.cc
@@ -162,6 +162,12 @@ namespace QDP
     sub = s.sub;
     lat_color = s.lat_color;
     sitetables = s.sitetables;
+
+    // The subsets must refer to this set's tables, not to those of s
+    for(int i=0; i < sub.size(); ++i)
+      sub[i].make(s.sub[i].ordRep, s.sub[i].startSite, s.sub[i].endSite,
+		  &(sitetables[i]), s.sub[i].sub_index, this);
+
     return *this;
   }
 
-- 
2.43.0


From a6f9bc97d8848a74e2bd4f64583358cc6d3eab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 03/54] fix: CB3D builds used time-fastest order for files and
 the global lexicographic index

---
 include/qdp_util.h          |  6 ++++++
 lib/qdp_layout.cc           | 11 +++++++----
 lib/qdp_parscalar_layout.cc |  4 ++--
 lib/qdp_scalar_layout.cc    |  6 +++---
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/qdp_util.h b/include/qdp_util.h
index 935d995..1974538 100644
--- a/include/qdp_util.h
+++ b/include/qdp_util.h
@@ -16,6 +16,12 @@ multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size);
 //! Calculates the lexicographic site index from the coordinate of a site
 int local_site(const multi1d<int>& coord, const multi1d<int>& latt_size);
 
+#if QDP_USE_CB3D_LAYOUT == 1
+//! As crtesn and local_site, but with the last direction running fastest
+multi1d<int> crtesn_tfast(int ipos, const multi1d<int>& latt_size);
+int local_site_tfast(const multi1d<int>& coord, const multi1d<int>& latt_size);
+#endif
+
 //! Unique-ify a list
 multi1d<int> uniquify_list(const multi1d<int>& ll);
 
diff --git a/lib/qdp_layout.cc b/lib/qdp_layout.cc
index 711aa62..63c335a 100644
--- a/lib/qdp_layout.cc
+++ b/lib/qdp_layout.cc
@@ -68,7 +68,11 @@ namespace QDP {
 
 #if QDP_USE_CB3D_LAYOUT == 1
 
-	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
+	// The orderings of the CB3D layout -- t fastest, then x.
+	// Only used to number the sites of a node: the global lexicographic order
+	// (crtesn, local_site below) is the same for all layouts.
+
+	multi1d<int> crtesn_tfast(int ipos, const multi1d<int>& latt_size)
 	{
 		multi1d<int> coord(latt_size.size());
 		int Ndim=latt_size.size() - 1; // Last elem latt size
@@ -99,7 +103,7 @@ namespace QDP {
 	* Nothing specific about the actual lattice size, can be used for 
 	* any kind of latt size 
 	*/
-	int local_site(const multi1d<int>& coord, const multi1d<int>& latt_size)
+	int local_site_tfast(const multi1d<int>& coord, const multi1d<int>& latt_size)
 	{
 		int order = 0;
 
@@ -118,8 +122,8 @@ namespace QDP {
 		return order;
 	}
 
+#endif
 
-#else
 	// Usual lattice decomposition -- x fastest, t slowest
 	//! Decompose a lexicographic site into coordinates
 	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
@@ -162,7 +166,6 @@ namespace QDP {
 		return order;
 	}
 
-#endif
 
 
 
diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index 8f925a3..503485c 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -568,7 +568,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       for(int i=1; i < Nd; ++i)
 	subgrid_cb_coord[i] = coord[i] % subgrid_cb_nrow[i];
     
-      return local_site(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
+      return local_site_tfast(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
     }
 
 
@@ -606,7 +606,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       coord *= Layout::subgridLattSize();
     
       int cb = linearsite / subgrid_vol_cb;
-      multi1d<int> tmp_coord = crtesn(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
+      multi1d<int> tmp_coord = crtesn_tfast(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
 
       
 
diff --git a/lib/qdp_scalar_layout.cc b/lib/qdp_scalar_layout.cc
index 61dc62a..77b9073 100644
--- a/lib/qdp_scalar_layout.cc
+++ b/lib/qdp_scalar_layout.cc
@@ -379,8 +379,8 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
 
       int cb = linearsite / vol_cb;
 
-      // This now uses crtesn with the t running fastest
-      multi1d<int> coord = crtesn(linearsite % vol_cb, cb_nrow);
+      // This uses the decomposition with the t running fastest
+      multi1d<int> coord = crtesn_tfast(linearsite % vol_cb, cb_nrow);
 
       int cbb = cb;
       for(int m=1; m<coord.size()-1; ++m) // Nd-1 checkerboard
@@ -412,7 +412,7 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       cb = cb & 1;
 
       // Use funky local site 
-      return local_site(cb_coord, cb_nrow) + cb*vol_cb;
+      return local_site_tfast(cb_coord, cb_nrow) + cb*vol_cb;
     }
   }
 
-- 
2.43.0


From a763158d0937d4a390f4b512e479f8b40f03cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 04/54] fix: random fill of an empty subset, or with idle
 threads, left the global seed undefined

---
 include/qdp_scalar_specific.h | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index fe40026..ae9dcc6 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -341,25 +341,23 @@ random(OLattice<T>& d, const Subset& s)
   // Grab table array
   const int *tab = s.siteTable().slice();
 
-#pragma omp parallel 
-  {
-    Seed seed;
-    Seed skewed_seed;
-
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early
-    for(int j=0; j < s.numSiteTable(); ++j) {
-      int i = tab[j];
-      seed = RNG::ran_seed;
-      skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
-      fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
-    }
+  // The new global seed is the same from any site, so advance it once here:
+  // then it is also right when no site, or not every thread, has work to do
+  T dummy;
+  Seed new_seed = RNG::ran_seed;
+  Seed new_skewed = RNG::ran_seed;
+  fill_random(dummy, new_seed, new_skewed, RNG::ran_mult_n);
 
-#pragma omp critical (random)
-    {
-      RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
-    }
+#pragma omp parallel for
+  for(int j=0; j < s.numSiteTable(); ++j) {
+    int i = tab[j];
+    Seed seed = RNG::ran_seed;
+    Seed skewed_seed;
+    skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
+    fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
   }
 
+  RNG::ran_seed = new_seed;
 }
 
 
-- 
2.43.0


From 601bd40af7114e1970ae0a7750928359edb9f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 05/54] fix: random, gaussian, copymask, read and write on
 subset views, and subset views of scalars

---
 include/qdp_outersubtype.h    | 24 +++++++++++-------------
 include/qdp_scalar_specific.h | 24 ++++++++++++++++++------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/include/qdp_outersubtype.h b/include/qdp_outersubtype.h
index c3d5e6b..a1e6479 100644
--- a/include/qdp_outersubtype.h
+++ b/include/qdp_outersubtype.h
@@ -22,8 +22,9 @@ class OSubScalar: public QDPSubType<T, OScalar<T> >
 
 public:
   //OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(ss) {}
-  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(&(const_cast<Subset&>(ss))) {}
-  OSubScalar(const OSubScalar& a): F(a.F), s(a.s) {}
+  // ownsMemory is set so that operations act directly on F
+  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), ownsMemory(true), s(&(const_cast<Subset&>(ss))) {}
+  OSubScalar(const OSubScalar& a): F(a.F), ownsMemory(a.ownsMemory), s(a.s) {}
   ~OSubScalar() {}
 
   //---------------------------------------------------------
@@ -40,7 +41,7 @@ public:
   inline
   void operator=(const Zero& rhs)
     {
-      this->assign(rhs);
+      zero_rep(*F);
     }
 
   template<class T1,class C1>
@@ -61,7 +62,7 @@ public:
   inline
   void operator=(const OSubScalar& rhs)
     {
-      this->assign(rhs);
+      *F = *rhs.F;
     }
 
 
@@ -306,14 +307,14 @@ struct DoublePrecType<OSubLattice<T> >
 template<class T> 
 void zero_rep(OScalar<T>& dest, const Subset& s) 
 {
-  zero_rep(dest.field().elem());
+  zero_rep(dest.elem());
 }
 
 //! dest = 0
 template<class T>
 void zero_rep(OSubScalar<T> dest) 
 {
-  zero_rep(dest.field().elem());
+  zero_rep(*dest.getF());
 }
 
 //! dest = (mask) ? s1 : dest
@@ -321,7 +322,7 @@ template<class T1, class T2>
 void copymask(OSubScalar<T2> dest, const OScalar<T1>& mask, 
 	      const OScalar<T2>& s1) 
 {
-  copymask(dest.field().elem(), mask.elem(), s1.elem());
+  copymask(*dest.getF(), mask.elem(), s1.elem());
 }
 
 
@@ -336,15 +337,12 @@ void random(OSubScalar<T> d);
 template<class T>
 void gaussian(OSubScalar<T> dd)
 {
-  OLattice<T>& d = dd.field();
-  const Subset& s = dd.subset();
-
   OScalar<T>  r1, r2;
 
-  random(r1(s));
-  random(r2(s));
+  random(r1);
+  random(r2);
 
-  fill_gaussian(d.elem(), r1.elem(), r2.elem());
+  fill_gaussian(*dd.getF(), r1.elem(), r2.elem());
 }
 
 } // namespace QDP
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index ae9dcc6..87f87ec 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -280,7 +280,9 @@ template<class T1, class T2>
 void 
 copymask(OSubLattice<T2> d, const OLattice<T1>& mask, const OLattice<T2>& s1) 
 {
-  OLattice<T2>& dest = d.field();
+  if (d.getOwnsMemory())
+    QDP_error_exit("operation only supported on a subset view of a lattice");
+  OLattice<T2> dest(d.getF(), 1.0);   // view of the field d belongs to
   const Subset& s = d.subset();
 
   const int *tab = s.siteTable().slice();
@@ -365,7 +367,9 @@ random(OLattice<T>& d, const Subset& s)
 template<class T>
 void random(OSubLattice<T> dd)
 {
-  OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("operation only supported on a subset view of a lattice");
+  OLattice<T> d(dd.getF(), 1.0);   // view of the field dd belongs to
   const Subset& s = dd.subset();
 
   random(d,s);
@@ -405,7 +409,9 @@ void gaussian(OLattice<T>& d, const Subset& s)
 template<class T>
 void gaussian(OSubLattice<T> dd)
 {
-  OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("operation only supported on a subset view of a lattice");
+  OLattice<T> d(dd.getF(), 1.0);   // view of the field dd belongs to
   const Subset& s = dd.subset();
 
   gaussian(d,s);
@@ -443,7 +449,9 @@ void zero_rep(OLattice<T>& dest, const Subset& s)
 template<class T, class S>
 void zero_rep(OSubLattice<T> dd) 
 {
-  OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("operation only supported on a subset view of a lattice");
+  OLattice<T> d(dd.getF(), 1.0);   // view of the field dd belongs to
   const Subset& s = dd.subset();
   
   zero_rep(d,s);
@@ -2118,7 +2126,9 @@ void write(BinaryWriter& bin, OSubLattice<T> dd)
   const Subset& sub = dd.subset();
   const Set& set    = sub.getSet();
 
-  const OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("operation only supported on a subset view of a lattice");
+  const OLattice<T> d(dd.getF(), 1.0);   // view of the field dd belongs to
 
   const multi1d<int>& lat_color = set.latticeColoring();
   const int color = sub.color();
@@ -2193,7 +2203,9 @@ void read(BinaryReader& bin, OSubLattice<T> dd)
   const Subset& sub = dd.subset();
   const Set& set    = sub.getSet();
 
-  OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("operation only supported on a subset view of a lattice");
+  OLattice<T> d(dd.getF(), 1.0);   // view of the field dd belongs to
 
   const multi1d<int>& lat_color = set.latticeColoring();
   const int color = sub.color();
-- 
2.43.0


From bf8cae40e78b1cbabf3ef2222cf5aaa7717241b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 06/54] fix: scalar right-hand sides on an owning OSubLattice
 only reached its first site; operations on scalar subset views were lost

---
 include/qdp_newops.h       | 16 ++++-----
 include/qdp_outer.h        |  5 +--
 include/qdp_outersubtype.h | 20 +++++++++--
 include/qdp_qdpsubtype.h   | 71 ++++++++++++++++++++------------------
 4 files changed, 65 insertions(+), 47 deletions(-)

diff --git a/include/qdp_newops.h b/include/qdp_newops.h
index b128af4..8497c77 100644
--- a/include/qdp_newops.h
+++ b/include/qdp_newops.h
@@ -370,7 +370,7 @@ inline C1
 pokeColor(const QDPSubType<T1,C1>& l, const QDPType<T2,C2>& r, int row, int col)
 {
   //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
+  typename QDPSubTypeTrait<C1>::View_t ll( l.getF() , 1.0 );
   const Subset& s = l.subset();
 
   evaluate(ll,FnPokeColorMatrix(row,col),PETE_identity(r),s);
@@ -383,7 +383,7 @@ inline C1
 pokeColor(const QDPSubType<T1,C1>& l, const QDPExpr<T2,C2>& r, int row, int col)
 {
   //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
+  typename QDPSubTypeTrait<C1>::View_t ll( l.getF() , 1.0 );
   const Subset& s = l.subset();
 
   evaluate(ll,FnPokeColorMatrix(row,col),r,s);
@@ -444,7 +444,7 @@ inline C1
 pokeColor(const QDPSubType<T1,C1>& l, const QDPType<T2,C2>& r, int row)
 {
   //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
+  typename QDPSubTypeTrait<C1>::View_t ll( l.getF() , 1.0 );
 
   const Subset& s = l.subset();
 
@@ -458,7 +458,7 @@ inline C1
 pokeColor(const QDPSubType<T1,C1>& l, const QDPExpr<T2,C2>& r, int row)
 {
   //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
+  typename QDPSubTypeTrait<C1>::View_t ll( l.getF() , 1.0 );
 
   const Subset& s = l.subset();
 
@@ -519,7 +519,7 @@ inline C1
 pokeSpin(const QDPSubType<T1,C1>& l, const QDPType<T2,C2>& r, int row, int col)
 {
   //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
+  typename QDPSubTypeTrait<C1>::View_t ll( l.getF() , 1.0 );
 
   const Subset& s = l.subset();
 
@@ -533,7 +533,7 @@ inline C1
 pokeSpin(const QDPSubType<T1,C1>& l, const QDPExpr<T2,C2>& r, int row, int col)
 {
   //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
+  typename QDPSubTypeTrait<C1>::View_t ll( l.getF() , 1.0 );
 
   const Subset& s = l.subset();
 
@@ -595,7 +595,7 @@ inline C1
 pokeSpin(const QDPSubType<T1,C1>& l, const QDPType<T2,C2>& r, int row)
 {
   //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
+  typename QDPSubTypeTrait<C1>::View_t ll( l.getF() , 1.0 );
 
   const Subset& s = l.subset();
 
@@ -609,7 +609,7 @@ inline C1
 pokeSpin(const QDPSubType<T1,C1>& l, const QDPExpr<T2,C2>& r, int row)
 {
   //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
+  typename QDPSubTypeTrait<C1>::View_t ll( l.getF() , 1.0 );
 
   const Subset& s = l.subset();
 
diff --git a/include/qdp_outer.h b/include/qdp_outer.h
index 2bae99e..a8ad49b 100644
--- a/include/qdp_outer.h
+++ b/include/qdp_outer.h
@@ -242,8 +242,9 @@ inline
 void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs,
 	      const Subset& s)
 {
-  // Subset is not used at this level. It may be needed, though, within an inner operation
-  op(*dest, forEach(rhs, ElemLeaf(), OpCombine()));
+  // dest holds the sites of the subset only
+  for(int j=0; j < s.numSiteTable(); ++j) 
+    op(dest[j], forEach(rhs, ElemLeaf(), OpCombine()));
 }
 
 
diff --git a/include/qdp_outersubtype.h b/include/qdp_outersubtype.h
index a1e6479..79b5524 100644
--- a/include/qdp_outersubtype.h
+++ b/include/qdp_outersubtype.h
@@ -22,8 +22,7 @@ class OSubScalar: public QDPSubType<T, OScalar<T> >
 
 public:
   //OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(ss) {}
-  // ownsMemory is set so that operations act directly on F
-  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), ownsMemory(true), s(&(const_cast<Subset&>(ss))) {}
+  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), ownsMemory(false), s(&(const_cast<Subset&>(ss))) {}
   OSubScalar(const OSubScalar& a): F(a.F), ownsMemory(a.ownsMemory), s(a.s) {}
   ~OSubScalar() {}
 
@@ -41,7 +40,7 @@ public:
   inline
   void operator=(const Zero& rhs)
     {
-      zero_rep(*F);
+      this->assign(rhs);
     }
 
   template<class T1,class C1>
@@ -233,10 +232,24 @@ private:
 // Traits class for returning the subset-ted class name of a outer grid class
 //-----------------------------------------------------------------------------
 
+//! A scalar acting on storage elsewhere: the value is stored back at the end
+template<class T>
+class OScalarView: public OScalar<T>
+{
+public:
+  OScalarView(T* F_, float f): OScalar<T>(F_,f), F(F_) {}
+  ~OScalarView() {*F = this->elem();}
+
+private:
+  T* F;
+};
+
+
 template<class T>
 struct QDPSubTypeTrait<OScalar<T> > 
 {
   typedef OSubScalar<T>  Type_t;
+  typedef OScalarView<T> View_t;
 };
 
 
@@ -244,6 +257,7 @@ template<class T>
 struct QDPSubTypeTrait<OLattice<T> > 
 {
   typedef OSubLattice<T>  Type_t;
+  typedef OLattice<T>     View_t;
 };
 
 
diff --git a/include/qdp_qdpsubtype.h b/include/qdp_qdpsubtype.h
index b41b9a9..9ea5540 100644
--- a/include/qdp_qdpsubtype.h
+++ b/include/qdp_qdpsubtype.h
@@ -23,6 +23,9 @@ class QDPSubType
   //! This is a type name like OSubLattice<T> or OSubScalar<T>
   typedef typename QDPSubTypeTrait<C>::Type_t CC;
 
+  //! The type that acts on the storage of the underlying object
+  typedef typename QDPSubTypeTrait<C>::View_t View_t;
+
 public:
   //! Default constructor 
   QDPSubType() {}
@@ -44,7 +47,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -55,7 +58,7 @@ public:
     if (getOwnsMemory()) {
       zero_rep_F(getF(),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       zero_rep(tmp,subset());
     }
   }
@@ -67,7 +70,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -119,7 +122,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpAssign(),rhs,subset());
     }
   }
@@ -131,7 +134,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpAddAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpAddAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -143,7 +146,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpAddAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpAddAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -155,7 +158,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpAddAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpAddAssign(),rhs,subset());
     }
   }
@@ -167,7 +170,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpSubtractAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpSubtractAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -179,7 +182,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpSubtractAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpSubtractAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -191,7 +194,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpSubtractAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpSubtractAssign(),rhs,subset());
     }
   }
@@ -203,7 +206,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpMultiplyAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpMultiplyAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -215,7 +218,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpMultiplyAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpMultiplyAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -227,7 +230,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpMultiplyAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpMultiplyAssign(),rhs,subset());
     }
   }
@@ -239,7 +242,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpDivideAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpDivideAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -251,7 +254,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpDivideAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpDivideAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -263,7 +266,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpDivideAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpDivideAssign(),rhs,subset());
     }
   }
@@ -275,7 +278,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpModAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpModAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -287,7 +290,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpModAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpModAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -299,7 +302,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpModAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpModAssign(),rhs,subset());
     }
   }
@@ -311,7 +314,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseOrAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseOrAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -323,7 +326,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseOrAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseOrAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -335,7 +338,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseOrAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseOrAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -347,7 +350,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseAndAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseAndAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -359,7 +362,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseAndAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseAndAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -371,7 +374,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseAndAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseAndAssign(),rhs,subset());
     }
   }
@@ -383,7 +386,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseXorAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseXorAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -395,7 +398,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseXorAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseXorAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -407,7 +410,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpBitwiseXorAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseXorAssign(),rhs,subset());
     }
   }
@@ -419,7 +422,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpLeftShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpLeftShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -431,7 +434,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpLeftShiftAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpLeftShiftAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -443,7 +446,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpLeftShiftAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpLeftShiftAssign(),rhs,subset());
     }
   }
@@ -456,7 +459,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpRightShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpRightShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
     }
   }
@@ -468,7 +471,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpRightShiftAssign(),PETE_identity(rhs),subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpRightShiftAssign(),PETE_identity(rhs),subset());
     }
   }
@@ -480,7 +483,7 @@ public:
     if (getOwnsMemory()) {
       evaluate_F(getF(),OpRightShiftAssign(),rhs,subset());
     } else {
-      C tmp(getF(),1.0);
+      View_t tmp(getF(),1.0);
       evaluate(tmp,OpRightShiftAssign(),rhs,subset());
     }
   }
-- 
2.43.0


From fa2042903dc8410f2bd19f570f221985b5ec4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 07/54] fix: where(bool, complex, real) and where(bool, real,
 complex) did not compile

---
 include/qdp_reality.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 18da0a1..377a481 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -2488,7 +2488,7 @@ where(const RScalar<T1>& a, const RComplex<T2>& b, const RScalar<T3>& c)
   typedef typename InternalScalar<T3>::Type_t  S;
 
   // Not optimal - want to have where outside assignment
-  return Ret_t(where(a.elem(), b.real(), c.real()),
+  return Ret_t(where(a.elem(), b.real(), c.elem()),
 	       where(a.elem(), b.imag(), S(0)));
 }
 
@@ -2510,7 +2510,7 @@ where(const RScalar<T1>& a, const RScalar<T2>& b, const RComplex<T3>& c)
   typedef typename InternalScalar<T2>::Type_t  S;
 
   // Not optimal - want to have where outside assignment
-  return Ret_t(where(a.elem(), b.real(), c.real()),
+  return Ret_t(where(a.elem(), b.elem(), c.real()),
 	       where(a.elem(), S(0), c.imag()));
 }
 
-- 
2.43.0


From 1f1f5864578de3bf62d921425b6a5f889ad837de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 08/54] fix: isnormal of a matrix field tested for infinities

---
 include/qdp_primmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 466f590..722831b 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -807,7 +807,7 @@ isnormal(const PMatrix<T1,N,C>& l)
 
   for(int i=0; i < N; ++i)
     for(int j=0; j < N; ++j)
-      d &= isinf(l.elem(i,j));
+      d &= isnormal(l.elem(i,j));
 
   return d;
 }
-- 
2.43.0


From cd285f47e30049e700ba52d5daecc30c0e617fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 09/54] fix: sumMulti of an array of fields or scalars declared
 a return type it could not return

---
 include/qdp_scalar_specific.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 87f87ec..47320b7 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -844,7 +844,7 @@ sumMulti(const QDPExpr<RHS,OLattice<T> >& s1, const Set& ss)
  * slices
  */
 template<class T>
-multi2d<typename UnaryReturn<OScalar<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
@@ -879,7 +879,7 @@ sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
  * version is fine.
  */
 template<class T>
-multi2d<typename UnaryReturn<OLattice<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OLattice<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
-- 
2.43.0


From b25bdea4c2892c7ba8898c71814fd876499cb188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 10/54] fix: norm2, innerProduct and innerProductReal of an
 array of scalars did not compile

---
 include/qdp_scalar_specific.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 47320b7..65fb887 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -943,7 +943,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T>& ss1 = s1[n];
+    const OScalar<T>& ss1 = s1[n];
     d.elem() += localNorm2(ss1.elem());
   }
 
@@ -1065,8 +1065,8 @@ innerProduct(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >& s2)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProduct(ss1.elem(),ss2.elem());
   }
 
@@ -1186,8 +1186,8 @@ innerProductReal(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >&
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProductReal(ss1.elem(),ss2.elem());
   }
 
-- 
2.43.0


From ba274cce1937d864e21d891b9713f2acc3d52ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 11/54] fix: SSE norm2 and innerProduct summed stale partial
 results of threads left without sites

---
 include/scalarsite_sse/qdp_scalarsite_sse_blas.h |  8 ++++++++
 .../qdp_scalarsite_sse_blas_double.h             | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
index 5668c48..5412a04 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
@@ -2216,6 +2216,10 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1, const Subset& s)
     ordered_sse_norm_single_user_arg arg;
     arg.vptr = (REAL32*) &(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
+    // threads left without sites do not write their partial result
+    for(int i=0; i < qdpNumThreads(); i++) {
+      arg.results[i] = 0;
+    }
     arg.func = local_sumsq_24_48;
     dispatch_to_threads(n_real, arg, ordered_norm_single_func);
     
@@ -2262,6 +2266,10 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1)
   ordered_sse_norm_single_user_arg arg;
   arg.vptr = (REAL32*) &(s1.elem(all.start()).elem(0).elem(0).real());
   arg.results = ThreadReductions::norm2_results;
+  // threads left without sites do not write their partial result
+  for(int i=0; i < qdpNumThreads(); i++) {
+    arg.results[i] = 0;
+  }
   arg.func = local_sumsq_24_48;
   dispatch_to_threads(n_real, arg, ordered_norm_single_func);
   
diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
index 97baf95..3a7f6ae 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
@@ -2571,6 +2571,10 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1, const Subset& s)
 
     arg.vptr = (REAL64*)&(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
+    // threads left without sites do not write their partial result
+    for(int i=0; i < qdpNumThreads(); i++) {
+      arg.results[i] = 0;
+    }
     arg.func = local_sumsq4;
     dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
     REAL64 lsum=arg.results[0];
@@ -2628,6 +2632,10 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1)
   arg.vptr = (REAL64*)&(s1.elem(all.start()).elem(0).elem(0).real());
   arg.func = local_sumsq4;
   arg.results = ThreadReductions::norm2_results;
+  // threads left without sites do not write their partial result
+  for(int i=0; i < qdpNumThreads(); i++) {
+    arg.results[i] = 0;
+  }
 
 
   dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
@@ -2671,6 +2679,10 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.yptr = (REAL64*)&(v2.elem(all.start()).elem(0).elem(0).real());
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
+    // threads left without sites do not write their partial result
+    for(int i=0; i < 2*qdpNumThreads(); i++) {
+      arg.results[i] = 0;
+    }
 
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
@@ -2740,6 +2752,10 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.yptr = (REAL64*)&(v2.elem(s.start()).elem(0).elem(0).real());
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
+    // threads left without sites do not write their partial result
+    for(int i=0; i < 2*qdpNumThreads(); i++) {
+      arg.results[i] = 0;
+    }
 
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
-- 
2.43.0


From c41224ebfeaec5acc586ffa2b52184d01b0e2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 12/54] fix: gaussian of a scalar object was declared for a
 subset view it could not accept

---
 include/qdp_outer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qdp_outer.h b/include/qdp_outer.h
index a8ad49b..9115d8a 100644
--- a/include/qdp_outer.h
+++ b/include/qdp_outer.h
@@ -1460,12 +1460,12 @@ void random(OScalar<T>& d);
 
 //! dest  = gaussian
 template<class T>
-void gaussian(OSubScalar<T>& d)
+void gaussian(OScalar<T>& d)
 {
   OScalar<T>  r1, r2;
 
-  random(OSubScalar<T>(r1,d.subset()));
-  random(OSubScalar<T>(r2,d.subset()));
+  random(r1);
+  random(r2);
 
   fill_gaussian(d.elem(), r1.elem(), r2.elem());
 }
-- 
2.43.0


From ec28eac3f64e2aecaa813568780bd8608b098454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 13/54] fix: peekColor and peekSpin of an expression declared
 the argument's type as their result

---
 include/qdp_newops.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/qdp_newops.h b/include/qdp_newops.h
index 8497c77..61843c1 100644
--- a/include/qdp_newops.h
+++ b/include/qdp_newops.h
@@ -157,7 +157,8 @@ peekColor(const QDPType<T1,C1> & l, int row, int col)
 
 template<class T1,class C1>
 inline typename MakeReturn<UnaryNode<FnPeekColorMatrix,
-  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>, C1>::Expression_t
+  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>,
+  typename UnaryReturn<C1,FnPeekColorMatrix >::Type_t >::Expression_t
 peekColor(const QDPExpr<T1,C1> & l, int row, int col)
 {
   typedef UnaryNode<FnPeekColorMatrix,
@@ -206,7 +207,8 @@ peekColor(const QDPType<T1,C1> & l, int row)
 
 template<class T1,class C1>
 inline typename MakeReturn<UnaryNode<FnPeekColorVector,
-  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>, C1>::Expression_t
+  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>,
+  typename UnaryReturn<C1,FnPeekColorVector >::Type_t >::Expression_t
 peekColor(const QDPExpr<T1,C1> & l, int row)
 {
   typedef UnaryNode<FnPeekColorVector,
@@ -254,7 +256,8 @@ peekSpin(const QDPType<T1,C1> & l, int row, int col)
 
 template<class T1,class C1>
 inline typename MakeReturn<UnaryNode<FnPeekSpinMatrix,
-  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>, C1>::Expression_t
+  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>,
+  typename UnaryReturn<C1,FnPeekSpinMatrix >::Type_t >::Expression_t
 peekSpin(const QDPExpr<T1,C1> & l, int row, int col)
 {
   typedef UnaryNode<FnPeekSpinMatrix,
@@ -303,7 +306,8 @@ peekSpin(const QDPType<T1,C1> & l, int row)
 
 template<class T1,class C1>
 inline typename MakeReturn<UnaryNode<FnPeekSpinVector,
-  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>, C1>::Expression_t
+  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>,
+  typename UnaryReturn<C1,FnPeekSpinVector >::Type_t >::Expression_t
 peekSpin(const QDPExpr<T1,C1> & l, int row)
 {
   typedef UnaryNode<FnPeekSpinVector,
-- 
2.43.0


From 4ad42f8baa32c70be0faba5b2ea2b83f82e75b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 14/54] fix: binary buffers opened on a string started from an
 uninitialised checksum

---
 lib/qdp_io.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7b434db..1881905 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -923,6 +923,7 @@ namespace QDP
 
   void BinaryBufferReader::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
@@ -1353,6 +1354,7 @@ namespace QDP
 
   void BinaryBufferWriter::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
@@ -1546,6 +1548,7 @@ namespace QDP
 
   void BinaryBufferReaderWriter::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
-- 
2.43.0


From c8a07926e7986f5779d3fe27142c0440b06f37ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 15/54] fix: reading a string to the end of the data or of its
 buffer counted a newline in the checksum that was not read

---
 lib/qdp_io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 1881905..d419207 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -642,7 +642,8 @@ namespace QDP
       n = strlen(str);
       internalChecksum() = QDPUtil::crc32(internalChecksum(), str, n);   // no string terminator
       ++n;
-      internalChecksum() = QDPUtil::crc32(internalChecksum(), "\n", 1);   // account for newline written
+      if (getIstream().good())    // not at the end of the data or of the buffer: a newline was read
+	internalChecksum() = QDPUtil::crc32(internalChecksum(), "\n", 1);   // account for newline written
     }
 
     QDPInternal::broadcast(n);
-- 
2.43.0


From 9d35887aac84338324ccca4a8a7dfd7df94174d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 16/54] fix: text output of complex numbers, vectors and
 matrices ran the components together, so it could not be read back

---
 include/qdp_primmatrix.h  | 5 +++++
 include/qdp_primspinvec.h | 5 +++++
 include/qdp_primvector.h  | 5 +++++
 include/qdp_reality.h     | 2 +-
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 722831b..7391257 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -182,7 +182,12 @@ TextWriter& operator<<(TextWriter& txt, const PMatrix<T,N,C>& d)
 {
   for(int j=0; j < N; ++j)
     for(int i=0; i < N; ++i)
+    {
+      // Separate the components, so that they can be read back
+      if (i > 0 || j > 0)
+	txt << " ";
       txt << d.elem(i,j);
+    }
 
   return txt;
 }
diff --git a/include/qdp_primspinvec.h b/include/qdp_primspinvec.h
index fbf458c..0252444 100644
--- a/include/qdp_primspinvec.h
+++ b/include/qdp_primspinvec.h
@@ -160,8 +160,13 @@ template<class T, int N>
 inline
 TextWriter& operator<<(TextWriter& txt, const PSpinVector<T,N>& d)
 {
+  // Separate the components, so that they can be read back
   for(int i=0; i < N; ++i)
+  {
+    if (i > 0)
+      txt << " ";
     txt << d.elem(i);
+  }
 
   return txt;
 }
diff --git a/include/qdp_primvector.h b/include/qdp_primvector.h
index 4ba3251..45e856d 100644
--- a/include/qdp_primvector.h
+++ b/include/qdp_primvector.h
@@ -192,8 +192,13 @@ template<class T, int N, template<class,int> class C>
 inline
 TextWriter& operator<<(TextWriter& txt, const PVector<T,N,C>& d)
 {
+  // Separate the components, so that they can be read back
   for(int i=0; i < N; ++i)
+  {
+    if (i > 0)
+      txt << " ";
     txt << d.elem(i);
+  }
 
   return txt;
 }
diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 377a481..679d3f4 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -420,7 +420,7 @@ template<class T>
 inline  
 TextWriter& operator<<(TextWriter& s, const RComplex<T>& d)
 {
-  return s << d.real() << d.imag();
+  return s << d.real() << " " << d.imag();
 }
 
 #ifdef QDP_USE_LIBXML2
-- 
2.43.0


From 64aaf73d0588961843320165c3f4b71b4ed854d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 17/54] fix: operator<< of a char on text and binary writers
 was declared but never defined

---
 lib/qdp_io.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index d419207..e4d99f3 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -292,6 +292,12 @@ namespace QDP
     return txt;
   }
 
+  TextWriter& operator<<(TextWriter& txt, char output)
+  {
+    txt.write(output);
+    return txt;
+  }
+
   TextWriter& operator<<(TextWriter& txt, int output)
   {
     txt.write(output);
@@ -1284,6 +1290,12 @@ namespace QDP
     return bin;
   }
 
+  BinaryWriter& operator<<(BinaryWriter& bin, char output)
+  {
+    write(bin, output);
+    return bin;
+  }
+
   BinaryWriter& operator<<(BinaryWriter& bin, int output)
   {
     write(bin, output);
-- 
2.43.0


From ba1a213b4fcae77c9570efbf3b97b71ad589ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:53 +0000
Subject: [PATCH 18/54] fix: a buffer reader opened again after reading to the
 end of its data could not read

---
 lib/qdp_io.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index e4d99f3..ab68123 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -189,7 +189,10 @@ namespace QDP
   void TextBufferReader::open(const std::string& s) 
   {
     if (Layout::primaryNode())
+    {
+      f.clear();   // the previous data may have been read to its end
       f.str(s);
+    }
   }
 
   // Output the stream
@@ -932,7 +935,10 @@ namespace QDP
   {
     checksum = 0;
     if (Layout::primaryNode())
+    {
+      f.clear();   // the previous data may have been read to its end
       f.str(s);
+    }
   }
 
   // Output the stream
@@ -1563,7 +1569,10 @@ namespace QDP
   {
     checksum = 0;
     if (Layout::primaryNode())
+    {
+      f.clear();   // the previous data may have been read to its end
       f.str(s);
+    }
   }
 
   // Output the stream
-- 
2.43.0


From 7ee664fbaa07ef92ecfedbe7f2589dae479f871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 19/54] fix: NERSC archives with three-row matrices were
 labelled as two-row and could not be read back

---
 lib/qdp_iogauge.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 6706acf..b0887e3 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -621,8 +621,13 @@ static void writeArchivHeader(BinaryWriter& cfg_out, const ArchivGauge_t& header
   head << "LINK_TRACE = " << header.link << "\n"
        << "PLAQUETTE = " << header.w_plaq << "\n";
 
-  head << "DATATYPE = 4D_SU3_GAUGE\n"
-       << "HDR_VERSION = 1.0\n"
+  // The third row is stored only if asked for
+  if (header.mat_size == 2*Nc*Nc)
+    head << "DATATYPE = 4D_SU3_GAUGE_3x3\n";
+  else
+    head << "DATATYPE = 4D_SU3_GAUGE\n";
+
+  head << "HDR_VERSION = 1.0\n"
        << "STORAGE_FORMAT = 1.0\n";
 
   for(int i=1; i <= Nd; ++i)
-- 
2.43.0


From 2848b4d7111d61f64a3ff05f940fc809b1f23e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 20/54] fix: NERSC archive headers lost antiperiodic boundary
 conditions when read back

---
 lib/qdp_iogauge.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index b0887e3..105358e 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -421,6 +421,22 @@ static void readArchivHeader(BinaryReader& cfg_in, ArchivGauge_t& header)
       header.boundary[dd-1] = itmp;
     }
 
+    // The standard gives the boundary conditions by name
+    char bc[max_line_length];
+    if ( sscanf(line.c_str(), "BOUNDARY_%d = %s", &dd, bc) == 2 )
+    {
+      if (dd < 1 || dd > Nd)
+      {
+	QDPIO::cerr << __func__ << ": dimension number out of bounds" << std::endl;
+	QDP_abort(1);
+      }
+
+      if ( std::string(bc) == "PERIODIC" )
+	header.boundary[dd-1] = 1;
+      else if ( std::string(bc) == "ANTIPERIODIC" )
+	header.boundary[dd-1] = -1;
+    }
+
     if( token == std::string("FLOATING_POINT") )
     {
       if( value == std::string("IEEE32BIG") || value == std::string("IEEE32") ) 
-- 
2.43.0


From 5747aeb68c33be1df4c7dddd83717e963e4053c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 21/54] fix: the hexadecimal checksum of an XML NERSC header
 was read as decimal

---
 lib/qdp_iogauge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 105358e..545d804 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -156,7 +156,7 @@ void read(XMLReader& xml, const std::string& path, ArchivGauge_t& header)
     std::string chk;
     read(paramtop, "checksum", chk);
     std::istringstream s(chk);
-    s >> header.checksum;
+    s >> std::hex >> header.checksum;
   }
 }
 
-- 
2.43.0


From 8fe3cf6fd49bb8650398295d3b65413f82e5a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 22/54] fix: multiNd operator() used the strides of the
 reversed sizes and disagreed with operator[]

---
 include/qdp_multi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 0034bdd..8ac3a50 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1127,7 +1127,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return const ref to an element
@@ -1139,7 +1139,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return ref to an element
@@ -1151,7 +1151,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return const ref to an element
@@ -1163,7 +1163,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return ref to an element
@@ -1175,7 +1175,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return const ref to an element
@@ -1187,7 +1187,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return ref to an element via indices packed in a multi1d array
-- 
2.43.0


From 08600d8d72625d064b916082b12173cd8b1d8f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 23/54] fix: self-assignment of multi2d to multiNd lost the
 data, and assigning to a slice exited

---
 include/qdp_multi.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 8ac3a50..150c216 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -680,7 +680,9 @@ public:
   //! Equal operator uses underlying = of T
   multi2d<T>& operator=(const multi2d<T>& s1)
     {
-      resize(s1.size2(), s1.size1());   // always resize
+      // resizing only when needed keeps self-assignment and assignment to slices right
+      if (n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -779,7 +781,9 @@ public:
   //! Equal operator uses underlying = of T
   multi3d<T>& operator=(const multi3d<T>& s1)
     {
-      resize(s1.size3(), s1.size2(), s1.size1());
+      // resizing only when needed keeps self-assignment and assignment to slices right
+      if (n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -874,7 +878,9 @@ public:
   //! Equal operator uses underlying = of T
   multi4d<T>& operator=(const multi4d<T>& s1)
     {
-      resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
+      // resizing only when needed keeps self-assignment and assignment to slices right
+      if (n4 != s1.n4 || n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -971,7 +977,9 @@ public:
   //! Equal operator uses underlying = of T
   multi5d<T>& operator=(const multi5d<T>& s1)
     {
-      resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
+      // resizing only when needed keeps self-assignment right
+      if (n5 != s1.n5 || n4 != s1.n4 || n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -1072,6 +1080,9 @@ public:
   //! Equal operator uses underlying = of T
   multiNd<T>& operator=(const multiNd<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size());
 
       for(int i=0; i < sz; ++i)
-- 
2.43.0


From b7265f090f361c34039d027651176a31691c47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 24/54] fix: two empty multi1d arrays did not compare equal

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 150c216..b5ed9bf 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -306,7 +306,7 @@ inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 template<typename T>
 inline bool operator==(const multi1d<T>& n1, const multi1d<T>& n2)
 {
-  if (n1.size() == 0 || n1.size() != n2.size())
+  if (n1.size() != n2.size())
     return false;
     
   for(int i=0; i < n1.size(); ++i)
-- 
2.43.0


From 4b4027c36d69238745829c679bcceb647fd1fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 25/54] fix: concat of multi1d arrays went through integers

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index b5ed9bf..da05cad 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -291,7 +291,7 @@ private:
 template<typename T>
 inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 {
-  multi1d<int> nz(l.size() + r.size());
+  multi1d<T> nz(l.size() + r.size());
   int j = 0;
   for(int i=0; i < l.size(); ++i)
     nz[j++] = l[i];
-- 
2.43.0


From 21b1d9a88de3b1a8e4e0016c39e7d656a3797e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 26/54] fix: scalar minus multi1d did not compile

---
 include/qdp_multi.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index da05cad..133fa0b 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -440,8 +440,9 @@ template< typename T>
 inline
 multi1d<T> operator-(const T& s, const multi1d<T>& a)
 {
-  multi1d<T> c(-a); 
-  c+=s;
+  multi1d<T> c(a.size());
+  c = s;
+  c-= a;
   return c;
 }
 //! Array - scalar
-- 
2.43.0


From 7d37dd1dd95d21d15063adc8cacab490716b35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 27/54] fix: the sized constructor of multi5d took four sizes
 and did not compile

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 133fa0b..88cdd83 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -936,7 +936,7 @@ template<class T> class multi5d
 public:
   multi5d() {F=0;n1=n2=n3=n4=n5=sz=0;copymem=false;}
   multi5d(T *f, int ns5, int ns4, int ns3, int ns2, int ns1) {F=f; n1=ns1; n2=ns2; n3=ns3; n4=ns4; n5=ns5; sz=n1*n2*n3*n4*n5; copymem=true;}
-  explicit multi5d(int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns4,ns3,ns2,ns1);}
+  explicit multi5d(int ns5, int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns5,ns4,ns3,ns2,ns1);}
   ~multi5d() {if (! copymem) {delete[] F;}}
 
   //! Copy constructor
-- 
2.43.0


From 6cccf0228a826603f14b6fa7a336c30258c2c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 28/54] fix: a default constructed multiNd had no defined size
 and could not be copied

---
 include/qdp_multi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 88cdd83..479d2e6 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1034,7 +1034,7 @@ private:
 template<class T> class multiNd
 {
 public:
-  multiNd() {F=0;}
+  multiNd(): sz(0), F(0) {}
   explicit multiNd(const multi1d<int>& _nz) {F=0;resize(_nz);}
   ~multiNd() {delete[] F;}
 
@@ -1052,7 +1052,7 @@ public:
     {
       delete[] F; 
       nz = _nz;
-      sz = nz[0];
+      sz = (nz.size() > 0) ? nz[0] : 0;
       for(int i=1; i < nz.size(); ++i)
 	sz *= nz[i];
       F = new(std::nothrow) T[sz];
-- 
2.43.0


From b7481bd7b60b610ce5e8ce9e8510415495db0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 29/54] fix: qdp_map_obj_disk.h used std::array without
 including it

---
 include/qdp_map_obj_disk.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 480da10..8eb424d 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -8,6 +8,7 @@
 #define __qdp_map_obj_disk_h__
 
 #include "qdp_map_obj.h"
+#include <array>
 #include <limits>
 #include <unordered_map>
 
-- 
2.43.0


From 5c1e52855d865bc2967adb75d28dcc05046a9d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 30/54] fix: MapObjectDisk divided by zero when converting
 stream positions

---
 include/qdp_map_obj_disk.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 8eb424d..a89f4c5 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -211,9 +211,9 @@ namespace QDP
   typename MapObjectDisk<K,V>::priv_pos_type_t
   MapObjectDisk<K,V>::convertToPrivate(const pos_type& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
-    uint64_t less = uint64_t(input % max_uint64);
-    uint64_t more = input / max_uint64;
+    // A stream position always fits in the least significant uint64_t
+    const uint64_t less = static_cast<uint64_t>(off_type(input));
+    const uint64_t more = 0;
     // NOTE comment on priv_pos_type_t
     return (QDPUtil::big_endian() ? priv_pos_type_t{more, less} : priv_pos_type_t{less, more});
   }
@@ -223,12 +223,8 @@ namespace QDP
   typename MapObjectDisk<K,V>::pos_type 
   MapObjectDisk<K,V>::convertFromPrivate(const priv_pos_type_t& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
     // NOTE comment on priv_pos_type_t
-    if (!QDPUtil::big_endian())
-      return pos_type(input[0]) + pos_type(input[1]) * max_uint64;
-    else
-      return pos_type(input[1]) + pos_type(input[0]) * max_uint64;
+    return pos_type(static_cast<off_type>(QDPUtil::big_endian() ? input[1] : input[0]));
   }
 
 
-- 
2.43.0


From 64ca7a5f98d29538713d9b559ea57cf58f7b1955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:03 +0000
Subject: [PATCH 31/54] fix: MapObjectDisk::insert after a get, an update or a
 flush overwrote other records

---
 include/qdp_map_obj_disk.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index a89f4c5..a49395d 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -580,7 +580,8 @@ namespace QDP
       else {
 	// Key does not exist
 
-	// Make note of current writer position
+	// New records go at the end. Note the position: a read may have moved it.
+	streamer.seekEnd(0);
 	pos_type pos = streamer.currentPosition();
       
 	// Insert pos into map
-- 
2.43.0


From dc0a33a552ee00f012345807aef456eed4304872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:03 +0000
Subject: [PATCH 32/54] fix: MapObjectDisk updating a key with a longer value
 overwrote the next record

---
 include/qdp_map_obj_disk.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index a49395d..8070c25 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -547,17 +547,18 @@ namespace QDP
       //  Find key
       BinaryBufferWriter bin;
       write(bin, key);
-      typename MapType_t::const_iterator key_ptr = src_map.find(bin.str());
+      typename MapType_t::iterator key_ptr = src_map.find(bin.str());
 
       if (key_ptr != src_map.end()) { 
-	// Key does exist
-	pos_type wpos = convertFromPrivate(key_ptr->second);
+	// Key does exist. The new value can be longer than the old one, so it
+	// cannot go over the old one: write it at the end.
+	streamer.seekEnd(0);
+	pos_type wpos = streamer.currentPosition();
+	key_ptr->second = convertToPrivate(wpos);
 	if (level >= 2) {
 	  QDPIO::cout << "Found key to update. Position is " << wpos << std::endl;
 	}
 	
-	streamer.seek(wpos);
-	
 	if (level >= 2) {
 	  QDPIO::cout << "Sought write position. Current Position: " << streamer.currentPosition() << std::endl;
 	}
-- 
2.43.0


From 583c880536471853e8ab455cd89d59a3ca0d181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:03 +0000
Subject: [PATCH 33/54] fix: MapObjectDisk kept the keys of a closed file

---
 include/qdp_map_obj_disk.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 8070c25..df0eabd 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -419,6 +419,8 @@ namespace QDP
       break;
     }
 
+    // The keys belong to the closed file
+    src_map.clear();
     state = INIT;
   }
   
-- 
2.43.0


From def52aff07f8828bc5e079831751b3e62e8ed6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:03 +0000
Subject: [PATCH 34/54] fix: MapObjectDiskMultiple used its maps after deleting
 them

---
 include/qdp_map_obj_disk_multiple.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index 3dfe3aa..101faf4 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -23,7 +23,7 @@ namespace QDP
     MapObjectDiskMultiple() {}
 
     //! Finalizes object
-    ~MapObjectDiskMultiple() {}
+    ~MapObjectDiskMultiple() {close();}
 
     //! Set debugging level
     void setDebug(int level)
@@ -71,6 +71,8 @@ namespace QDP
 	dbs_[i]->close();
 	delete dbs_[i];
       }
+
+      dbs_.clear();
     }
 
 
-- 
2.43.0


From 5d9ee1de9058af706be479af2987cb6cc360e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:03 +0000
Subject: [PATCH 35/54] fix: MapObjectDiskMultiple::fileExists looked only at
 as many files as were open

---
 include/qdp_map_obj_disk_multiple.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index 101faf4..593ebc1 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -51,15 +51,13 @@ namespace QDP
     //! Check if a DB file exists before opening.
     bool fileExists(const std::vector<std::string>& files) const
     {
-      bool ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i]->fileExists(files[i]);
-	if (! ret)
-	  return ret;
+	if (MapObjDiskEnv::checkForNewFile(files[i], std::ios_base::in))
+	  return false;
       }
 
-      return ret;
+      return true;
     }
 
 
-- 
2.43.0


From bb2334eae249a67913392730fbdbf6f2b734ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 36/54] fix: RANNYU::setrn before the first draw was ignored

---
 lib/qdp_rannyu.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index a7d294a..3269aa5 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -83,6 +83,7 @@ namespace QDP
       }
 	
       ran_seed = iseed;
+      inited = true;
     }
 
 
-- 
2.43.0


From 34dca1983fd73d03100b865022721d96fec5988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 37/54] fix: RANNYU shifted the top limb instead of masking it

---
 lib/qdp_rannyu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index 3269aa5..14e145f 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -47,7 +47,7 @@ namespace QDP
 	ll[2] = ii[2] & 4095;
 	ii[1] = ii[1] + (ii[2] >> 12);
 	ll[1] = ii[1] & 4095;
-	ll[0] = (ii[0] + (ii[1] >> 12)) >> 12;
+	ll[0] = (ii[0] + (ii[1] >> 12)) & 4095;
 	ran = twom12*((double)ll[0] + twom12*((double)ll[1] + twom12*((double)ll[2] + twom12*((double)ll[3]))));
       }
     }
-- 
2.43.0


From 257558d64d406e8e10116b3541c49aec668a1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 38/54] fix: RANNYU::savern before the first draw returned no
 seed

---
 lib/qdp_rannyu.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index 14e145f..aabd736 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -50,6 +50,19 @@ namespace QDP
 	ll[0] = (ii[0] + (ii[1] >> 12)) & 4095;
 	ran = twom12*((double)ll[0] + twom12*((double)ll[1] + twom12*((double)ll[2] + twom12*((double)ll[3]))));
       }
+
+      // Initialize the global seed if needed
+      void __initSeed()
+      {
+	if (! inited)
+	{
+	  ran_seed.resize(4);
+	  for(int i=0; i < 4; ++i)
+	    ran_seed[i] = __default_seed[i];
+
+	  inited = true;
+	}
+      }
     }
 
 
@@ -58,15 +71,7 @@ namespace QDP
     {
       double ran;
 
-      // Initialize the global seed if needed
-      if (! inited)
-      {
-	ran_seed.resize(4);
-	for(int i=0; i < 4; ++i)
-	  ran_seed[i] = __default_seed[i];
-
-	inited = true;
-      }
+      __initSeed();
 
       __rand(ran, ran_seed);
       return ran;
@@ -90,6 +95,7 @@ namespace QDP
     //! Recover the seed
     multi1d<int> savern()
     {
+      __initSeed();
       return ran_seed;
     }
 
-- 
2.43.0


From cd0bd99f1a0b243f465332cc88f4d2e2c073d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 39/54] fix: the pool allocator handed out a pointer when its
 pool was exhausted

---
 lib/qdp_pool_allocator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/qdp_pool_allocator.cc b/lib/qdp_pool_allocator.cc
index d16fc05..b74a846 100644
--- a/lib/qdp_pool_allocator.cc
+++ b/lib/qdp_pool_allocator.cc
@@ -72,6 +72,7 @@ namespace Allocator {
 
 
 	    unsigned char* Unaligned = (unsigned char *)(_LargePool->malloc(BytesToAlloc));
+	    if ( Unaligned == nullptr ) throw std::bad_alloc();   // the pool is exhausted
 
 	    unsigned char* Aligned = (unsigned char *)
 	    				( ( (unsigned long)Unaligned + (QDP_ALIGNMENT_SIZE-1) ) & ~(QDP_ALIGNMENT_SIZE - 1));
-- 
2.43.0


From 2a98dbe94fca2222db040df7b3cacd46a5167ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 40/54] fix: localInnerProductReal(matrix, scalar) did not
 compile

---
 include/qdp_primmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 7391257..8386c40 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -1746,7 +1746,7 @@ localInnerProductReal(const PMatrix<T1,N,C>& s1, const PScalar<T2>& s2)
 
   d.elem() = localInnerProductReal(s1.elem(0,0), s2.elem());
   for(int k=1; k < N; ++k)
-    d.elem() += localInnerProductReal(s1.elem(k,0), s2.elem(k,k));
+    d.elem() += localInnerProductReal(s1.elem(k,k), s2.elem());
 
   return d;
 }
-- 
2.43.0


From 46eecaa9e4a5c831d1a679fd45a774e09c1b3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 41/54] fix: imagTrace of a real quantity returned the quantity

---
 include/qdp_reality.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 679d3f4..fab08ee 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -1188,7 +1188,8 @@ imagTrace(const RScalar<T1>& s1)
 //  return trace_imag(s1.elem());
 
   /*! NOTE: removed trace here !!!!!  */
-  return s1.elem();
+  typedef typename InternalScalar<T1>::Type_t  S;
+  return S(0);
 }
 
 //! RScalar = trace(RScalar * RScalar)
-- 
2.43.0


From 9bcd0361833abf3cae76f0fde77d39df10774c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 42/54] fix: traceColor and traceSpin of a product took the
 type of a full trace

sum(traceColor(P*P)) and any other use that needs the type of the
expression did not compile.
---
 include/qdp_optops.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/qdp_optops.h b/include/qdp_optops.h
index 114b6e0..2571f7f 100644
--- a/include/qdp_optops.h
+++ b/include/qdp_optops.h
@@ -253,13 +253,13 @@ trace(const QDPExpr<BinaryNode<OpMultiply,T1,T2>,CC> & ll)
 //! traceColorMultiply(l,r)  <-  traceColor(l*r)
 template<class T1,class T2,class CC>
 inline typename MakeReturn<BinaryNode<FnTraceColorMultiply,T1,T2>,
-  typename UnaryReturn<CC,FnTrace>::Type_t>::Expression_t
+  typename UnaryReturn<CC,FnTraceColor>::Type_t>::Expression_t
 traceColor(const QDPExpr<BinaryNode<OpMultiply,T1,T2>,CC> & ll)
 {
 //  cerr << "traceColorMultiply(l,r) <- traceColor(l*r)" << endl;
 
   typedef BinaryNode<FnTraceColorMultiply,T1,T2> Tree_t;
-  typedef typename UnaryReturn<CC,FnTrace>::Type_t Container_t;
+  typedef typename UnaryReturn<CC,FnTraceColor>::Type_t Container_t;
   return MakeReturn<Tree_t,Container_t>::make(Tree_t(
     ll.expression().left(), 
     ll.expression().right()));
@@ -268,13 +268,13 @@ traceColor(const QDPExpr<BinaryNode<OpMultiply,T1,T2>,CC> & ll)
 //! traceSpinMultiply(l,r)  <-  traceSpin(l*r)
 template<class T1,class T2,class CC>
 inline typename MakeReturn<BinaryNode<FnTraceSpinMultiply,T1,T2>,
-  typename UnaryReturn<CC,FnTrace>::Type_t>::Expression_t
+  typename UnaryReturn<CC,FnTraceSpin>::Type_t>::Expression_t
 traceSpin(const QDPExpr<BinaryNode<OpMultiply,T1,T2>,CC> & ll)
 {
 //  cerr << "traceSpinMultiply(l,r) <- traceSpin(l*r)" << endl;
 
   typedef BinaryNode<FnTraceSpinMultiply,T1,T2> Tree_t;
-  typedef typename UnaryReturn<CC,FnTrace>::Type_t Container_t;
+  typedef typename UnaryReturn<CC,FnTraceSpin>::Type_t Container_t;
   return MakeReturn<Tree_t,Container_t>::make(Tree_t(
     ll.expression().left(), 
     ll.expression().right()));
@@ -283,13 +283,13 @@ traceSpin(const QDPExpr<BinaryNode<OpMultiply,T1,T2>,CC> & ll)
 //! traceOuterProduct(l,r)  <-  traceSpin(outerProduct(l,r))
 template<class T1,class T2,class CC>
 inline typename MakeReturn<BinaryNode<FnTraceSpinOuterProduct,T1,T2>,
-  typename UnaryReturn<CC,FnTrace>::Type_t>::Expression_t
+  typename UnaryReturn<CC,FnTraceSpin>::Type_t>::Expression_t
 traceSpin(const QDPExpr<BinaryNode<FnOuterProduct,T1,T2>,CC> & ll)
 {
 //  cerr << "traceSpinOuterProduct(l,r) <- traceSpin(outerProduct(l,r))" << endl;
 
   typedef BinaryNode<FnTraceSpinOuterProduct,T1,T2> Tree_t;
-  typedef typename UnaryReturn<CC,FnTrace>::Type_t Container_t;
+  typedef typename UnaryReturn<CC,FnTraceSpin>::Type_t Container_t;
   return MakeReturn<Tree_t,Container_t>::make(Tree_t(
     ll.expression().left(), 
     ll.expression().right()));
@@ -314,13 +314,13 @@ trace(const QDPExpr<BinaryNode<OpAdjMultiply,T1,T2>,CC> & ll)
 //! traceSpinQuarkContract13(l,r)  <-  traceSpin(quarkContract13(l,r))
 template<class T1,class T2,class CC>
 inline typename MakeReturn<BinaryNode<FnTraceSpinQuarkContract13,T1,T2>,
-  typename UnaryReturn<CC,FnTrace>::Type_t>::Expression_t
+  typename UnaryReturn<CC,FnTraceSpin>::Type_t>::Expression_t
 traceSpin(const QDPExpr<BinaryNode<FnQuarkContract13,T1,T2>,CC> & ll)
 {
 //  cerr << "traceSpinQuarkContract13(l,r) <- traceSpin(quarkContract13(l,r))" << endl;
 
   typedef BinaryNode<FnTraceSpinQuarkContract13,T1,T2> Tree_t;
-  typedef typename UnaryReturn<CC,FnTrace>::Type_t Container_t;
+  typedef typename UnaryReturn<CC,FnTraceSpin>::Type_t Container_t;
   return MakeReturn<Tree_t,Container_t>::make(Tree_t(
     ll.expression().left(), 
     ll.expression().right()));
-- 
2.43.0


From 80972abce28fe30264f43685292569c26caf95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 43/54] fix: traceColor and traceSpin of a matrix times a
 scalar did not compile

The overloads had a template parameter that cannot be deduced, so
traceSpin(P*M), traceColor(P*S) and the like fell through to the generic
matrix product.
---
 include/qdp_primcolormat.h | 2 +-
 include/qdp_primspinmat.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_primcolormat.h b/include/qdp_primcolormat.h
index cf6e40e..4da32e9 100644
--- a/include/qdp_primcolormat.h
+++ b/include/qdp_primcolormat.h
@@ -341,7 +341,7 @@ struct BinaryReturn<PColorMatrix<T1,N>, PScalar<T2>, FnTraceColorMultiply> {
   typedef PScalar<typename BinaryReturn<T1, T2, FnTraceColorMultiply>::Type_t>  Type_t;
 };
 
-template<class T1, class T2, int N, template<class,int> class C>
+template<class T1, class T2, int N>
 inline typename BinaryReturn<PColorMatrix<T1,N>, PScalar<T2>, FnTraceColorMultiply>::Type_t
 traceColorMultiply(const PColorMatrix<T1,N>& l, const PScalar<T2>& r)
 {
diff --git a/include/qdp_primspinmat.h b/include/qdp_primspinmat.h
index 1ad8cfe..39cda64 100644
--- a/include/qdp_primspinmat.h
+++ b/include/qdp_primspinmat.h
@@ -410,7 +410,7 @@ struct BinaryReturn<PSpinMatrix<T1,N>, PScalar<T2>, FnTraceSpinMultiply> {
   typedef PScalar<typename BinaryReturn<T1, T2, FnTraceSpinMultiply>::Type_t>  Type_t;
 };
 
-template<class T1, class T2, int N, template<class,int> class C>
+template<class T1, class T2, int N>
 inline typename BinaryReturn<PSpinMatrix<T1,N>, PScalar<T2>, FnTraceSpinMultiply>::Type_t
 traceSpinMultiply(const PSpinMatrix<T1,N>& l, const PScalar<T2>& r)
 {
-- 
2.43.0


From 52e43aae0a013e0484654ac31445106b989e8dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 44/54] fix: trace of a real times a complex quantity did not
 compile

---
 include/qdp_reality.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index fab08ee..5942099 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -2180,6 +2180,22 @@ traceMultiply(const RComplex<T1>& l, const RComplex<T2>& r)
 	       l.real()*r.imag() + l.imag()*r.real());
 }
 
+//! RComplex = trace(RComplex * RScalar)
+template<class T1, class T2>
+inline typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpMultiply>::Type_t
+traceMultiply(const RComplex<T1>& l, const RScalar<T2>& r)
+{
+  return l * r;
+}
+
+//! RComplex = trace(RScalar * RComplex)
+template<class T1, class T2>
+inline typename BinaryReturn<RScalar<T1>, RComplex<T2>, OpMultiply>::Type_t
+traceMultiply(const RScalar<T1>& l, const RComplex<T2>& r)
+{
+  return l * r;
+}
+
 
 // RScalar = Re(RComplex)
 template<class T>
-- 
2.43.0


From f9932dff30a0171806fb195a3802cb53140fe33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 45/54] fix: products of a real quantity with an adjoint one
 did not compile

beta*adj(u), adj(u)*beta and the like lacked the mixed real and complex
kernels.
---
 include/qdp_reality.h | 60 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 5942099..49e63ad 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -1994,6 +1994,66 @@ adjMultiplyAdj(const RComplex<T1>& l, const RComplex<T2>& r)
 	       -(l.real()*r.imag() + l.imag()*r.real()));
 }
 
+// Optimized  adj(RComplex)*RScalar
+template<class T1, class T2>
+inline typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpAdjMultiply>::Type_t
+adjMultiply(const RComplex<T1>& l, const RScalar<T2>& r)
+{
+  typedef typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpAdjMultiply>::Type_t  Ret_t;
+
+  return Ret_t(l.real()*r.elem(), -(l.imag()*r.elem()));
+}
+
+// Optimized  adj(RScalar)*RComplex
+template<class T1, class T2>
+inline typename BinaryReturn<RScalar<T1>, RComplex<T2>, OpAdjMultiply>::Type_t
+adjMultiply(const RScalar<T1>& l, const RComplex<T2>& r)
+{
+  typedef typename BinaryReturn<RScalar<T1>, RComplex<T2>, OpAdjMultiply>::Type_t  Ret_t;
+
+  return Ret_t(l.elem()*r.real(), l.elem()*r.imag());
+}
+
+// Optimized  RComplex*adj(RScalar)
+template<class T1, class T2>
+inline typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpMultiplyAdj>::Type_t
+multiplyAdj(const RComplex<T1>& l, const RScalar<T2>& r)
+{
+  typedef typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpMultiplyAdj>::Type_t  Ret_t;
+
+  return Ret_t(l.real()*r.elem(), l.imag()*r.elem());
+}
+
+// Optimized  RScalar*adj(RComplex)
+template<class T1, class T2>
+inline typename BinaryReturn<RScalar<T1>, RComplex<T2>, OpMultiplyAdj>::Type_t
+multiplyAdj(const RScalar<T1>& l, const RComplex<T2>& r)
+{
+  typedef typename BinaryReturn<RScalar<T1>, RComplex<T2>, OpMultiplyAdj>::Type_t  Ret_t;
+
+  return Ret_t(l.elem()*r.real(), -(l.elem()*r.imag()));
+}
+
+// Optimized  adj(RComplex)*adj(RScalar)
+template<class T1, class T2>
+inline typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpAdjMultiplyAdj>::Type_t
+adjMultiplyAdj(const RComplex<T1>& l, const RScalar<T2>& r)
+{
+  typedef typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpAdjMultiplyAdj>::Type_t  Ret_t;
+
+  return Ret_t(l.real()*r.elem(), -(l.imag()*r.elem()));
+}
+
+// Optimized  adj(RScalar)*adj(RComplex)
+template<class T1, class T2>
+inline typename BinaryReturn<RScalar<T1>, RComplex<T2>, OpAdjMultiplyAdj>::Type_t
+adjMultiplyAdj(const RScalar<T1>& l, const RComplex<T2>& r)
+{
+  typedef typename BinaryReturn<RScalar<T1>, RComplex<T2>, OpAdjMultiplyAdj>::Type_t  Ret_t;
+
+  return Ret_t(l.elem()*r.real(), -(l.elem()*r.imag()));
+}
+
 
 //! RComplex = RComplex / RComplex
 template<class T1, class T2>
-- 
2.43.0


From d170a41946144804abc3099d4f17319f570def5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 46/54] fix: RNG::initRNG lost the multiplier field of an
 earlier call

---
 lib/qdp_random.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/qdp_random.cc b/lib/qdp_random.cc
index 34bff2d..0fcf754 100644
--- a/lib/qdp_random.cc
+++ b/lib/qdp_random.cc
@@ -151,6 +151,7 @@ namespace RNG
       aa = aamult;
     }
 
+    delete lattice_ran_mult;   // from an earlier call
     lattice_ran_mult = new LatticeSeed;
     if( lattice_ran_mult == 0x0 ) { 
       QDP_error_exit("Unable to allocate ran_mult\n");
@@ -170,6 +171,7 @@ namespace RNG
   {
     if (lattice_ran_mult)
        delete lattice_ran_mult;
+    lattice_ran_mult = 0x0;
   }
 
 
-- 
2.43.0


From 3f81d87e5478c549187984af05b931f4669629c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 47/54] fix: messages longer than 1023 characters overran the
 buffers of QDP_info, QDP_error and QDP_error_exit

---
 lib/qdp_util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/qdp_util.cc b/lib/qdp_util.cc
index 21cb785..da1940d 100644
--- a/lib/qdp_util.cc
+++ b/lib/qdp_util.cc
@@ -50,11 +50,11 @@ QDP_info (const char* format, ...)
   gethostname (hostname, sizeof (hostname) - 1);
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s info: ", 
+  snprintf (info, sizeof (info), "QDP m%d,n%d@%s info: ", 
 	   rank, size, hostname);
 
   va_start (argp, format);
-  int status = vsprintf (buffer, format, argp);
+  int status = vsnprintf (buffer, sizeof (buffer), format, argp);
   va_end (argp);
 
   fprintf (stdout, "%s %s\n", info, buffer);
@@ -76,10 +76,10 @@ QDP_error (const char* format, ...)
   gethostname (hostname, sizeof (hostname) - 1);
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s error: ", rank, size, hostname);
+  snprintf (info, sizeof (info), "QDP m%d,n%d@%s error: ", rank, size, hostname);
 	   
   va_start (argp, format);
-  int status = vsprintf (buffer, format, argp);
+  int status = vsnprintf (buffer, sizeof (buffer), format, argp);
   va_end (argp);
 
   fprintf (stderr, "%s %s\n", info, buffer);
@@ -100,10 +100,10 @@ QDP_error_exit (const char* format, ...)
   gethostname (hostname, sizeof (hostname) - 1);
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s fatal error: ", rank, size, hostname);
+  snprintf (info, sizeof (info), "QDP m%d,n%d@%s fatal error: ", rank, size, hostname);
 	   
   va_start (argp, format);
-  vsprintf (buffer, format, argp);
+  vsnprintf (buffer, sizeof (buffer), format, argp);
   va_end (argp);
 
   fprintf (stderr, "%s %s\n", info, buffer);
-- 
2.43.0


From cefa2a10b26961517c3b44922c993d7a1300a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 48/54] fix: the share of a thread was computed in int and
 overflowed for many sites times many threads

---
 include/qdp_dispatch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_dispatch.h b/include/qdp_dispatch.h
index fa38077..9ac0307 100644
--- a/include/qdp_dispatch.h
+++ b/include/qdp_dispatch.h
@@ -39,14 +39,14 @@ void dispatch_to_threads(int numSiteTable, Arg a, void (*func)(int,int,int, Arg*
       int active_threads_num = threads_num > numSiteTable ? numSiteTable : threads_num;
 
       if( myId < numSiteTable ) {
-    	  int low = (numSiteTable*myId)/active_threads_num;
+    	  int low = ((long)numSiteTable*myId)/active_threads_num;   // the product can exceed an int
 
       	  // NB: high can never be too high since for the last thread
       	  // myId + 1 = (threads_num - 1) + 1 = threads_num.
       	  // So numSiteTable*(myId+1) will always be a strict multiple of threads_num
       	  // and so truncation issues will not bite.
       	  // I am addig in the parentheses tho to force the precedence
-      	  int high =(numSiteTable*(myId+1))/active_threads_num;
+      	  int high =((long)numSiteTable*(myId+1))/active_threads_num;
  
       	  func(low, high, myId, &a);
       }
-- 
2.43.0


From fd362a5e3bc6a25738bd557d0fddaf45d5d1970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 49/54] fix: Layout::create accepted lattice sizes that are not
 positive

---
 lib/qdp_scalar_layout.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/qdp_scalar_layout.cc b/lib/qdp_scalar_layout.cc
index 77b9073..1e1b380 100644
--- a/lib/qdp_scalar_layout.cc
+++ b/lib/qdp_scalar_layout.cc
@@ -193,6 +193,10 @@ namespace QDP
       if (_layout.nrow.size() != Nd)
 	QDP_error_exit("dimension of lattice size not the same as the default");
 
+      for(int i=0; i < Nd; ++i) 
+	if (_layout.nrow[i] < 1)
+	  QDP_error_exit("lattice size %d in direction %d is not positive",_layout.nrow[i],i);
+
       _layout.vol=1;
 
       for(int i=0; i < Nd; ++i) 
-- 
2.43.0


From 3bb8612a1d3b80d4a7907cabd7155007a5a8e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 50/54] fix: -poolsize as the last argument read beyond the
 arguments

---
 lib/qdp_scalar_init.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index ae96ea7..ace57ff 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -112,8 +112,8 @@ void QDP_initialize(int *argc, char ***argv)
 #endif
     if ( strcmp((*argv)[i],"-poolsize")==0)
       {
-	sscanf((*argv)[++i], "%f", &pool_size_in_gb);
-	
+	if (++i < *argc)
+	  sscanf((*argv)[i], "%f", &pool_size_in_gb);
       }
 
     if (i >= *argc) 
-- 
2.43.0


From 963d02a226ea6e1a0cb9827020225dda8a451ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 51/54] fix: a binary read beyond the end of the data left
 garbage and took it into the checksum

---
 lib/qdp_io.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index ab68123..f162132 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -6,6 +6,7 @@
 #include "qdp.h"
 #include "qdp_byteorder.h"
 #include <complex>
+#include <cstring>
 
 namespace QDP
 {
@@ -729,7 +730,17 @@ namespace QDP
       // Read
       // By default, we expect all data to be in big-endian
       getIstream().read(input, size*nmemb);
-      internalChecksum() = QDPUtil::crc32(internalChecksum(), input, size*nmemb);
+      size_t num = getIstream().gcount();
+
+      // The data ended early: fail() tells. Leave no garbage in what was not read,
+      // it can be a length.
+      if (num < size*nmemb)
+      {
+	size_t whole = num - num % size;
+	memset(input + whole, 0, size*nmemb - whole);
+      }
+
+      internalChecksum() = QDPUtil::crc32(internalChecksum(), input, num);
 
       if (! QDPUtil::big_endian())
       {
-- 
2.43.0


From 7a3cbade10d83fb174db5a182e603271b34b9cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 52/54] fix: Layout::create divided by zero where a
 checkerboarded layout halves a size of one

---
 lib/qdp_scalar_layout.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/qdp_scalar_layout.cc b/lib/qdp_scalar_layout.cc
index 1e1b380..e837fb0 100644
--- a/lib/qdp_scalar_layout.cc
+++ b/lib/qdp_scalar_layout.cc
@@ -197,6 +197,15 @@ namespace QDP
 	if (_layout.nrow[i] < 1)
 	  QDP_error_exit("lattice size %d in direction %d is not positive",_layout.nrow[i],i);
 
+#if QDP_USE_CB2_LAYOUT == 1 || QDP_USE_CB3D_LAYOUT == 1
+      if (_layout.nrow[0] & 1)
+	QDP_error_exit("lattice size %d in direction 0 must be even for this layout",_layout.nrow[0]);
+#elif QDP_USE_CB32_LAYOUT == 1
+      for(int i=0; i < Nd; ++i) 
+	if (_layout.nrow[i] % (i == 0 ? 4 : 2) != 0)
+	  QDP_error_exit("lattice size %d in direction %d must be a multiple of %d for this layout",_layout.nrow[i],i,(i == 0 ? 4 : 2));
+#endif
+
       _layout.vol=1;
 
       for(int i=0; i < Nd; ++i) 
-- 
2.43.0


From a7c98bfbc371b55c4cce1022897db0741767049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 53/54] fix: a map file that ends within its header was opened
 as an empty map

---
 include/qdp_map_obj_disk.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index df0eabd..c4bff6b 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -701,7 +701,7 @@ namespace QDP
 	  QDPIO::cout << " Record checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition() << std::endl;
 	}
 
-	if( read_checksum != calc_checksum ) { 
+	if( streamer.fail() || read_checksum != calc_checksum ) { 
 	  QDPIO::cout << "Mismatched Checksums: Expected: " << calc_checksum << " but read " << read_checksum << std::endl;
 	  QDP_abort(1);
 	}
@@ -818,6 +818,12 @@ namespace QDP
       // Read MD location
       streamer.readArray((char *)&md_position, sizeof(priv_pos_type_t), 1);
 
+      // Check the header is complete
+      if (streamer.fail()) {
+	QDPIO::cerr << "MapObjectDisk: the file ends within its header" << std::endl;
+	QDP_abort(1);
+      }
+
       if (level >= 2) {
 	QDPIO::cout << "Read MD Location. Current position: " << streamer.currentPosition() << std::endl;
       }
@@ -889,7 +895,7 @@ namespace QDP
       QDPIO::cout << "Read num of entries: " << num_records << " records. Current Position: " << streamer.currentPosition() << std::endl;
     }
     
-    for(unsigned int i=0; i < num_records; i++) 
+    for(unsigned int i=0; i < num_records && ! streamer.fail(); i++) 
     { 
       priv_pos_type_t rpos;
       std::string key_str;
@@ -910,7 +916,7 @@ namespace QDP
     if (level >= 2) {
       QDPIO::cout << "Read Map checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition();
     }
-    if( read_checksum != calc_checksum ) { 
+    if( streamer.fail() || read_checksum != calc_checksum ) { 
       QDPIO::cout << "Mismatched Checksums: Expected: " << calc_checksum << " but read " << read_checksum << std::endl;
       QDP_abort(1);
     }
-- 
2.43.0


From 729c5139bb2372a4e759022002c65b3ff0c40fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 54/54] fix: MapObjectDisk::insert reported success, and kept
 the key, when the value could not be written

---
 include/qdp_map_obj_disk.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index c4bff6b..3a79774 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -556,7 +556,6 @@ namespace QDP
 	// cannot go over the old one: write it at the end.
 	streamer.seekEnd(0);
 	pos_type wpos = streamer.currentPosition();
-	key_ptr->second = convertToPrivate(wpos);
 	if (level >= 2) {
 	  QDPIO::cout << "Found key to update. Position is " << wpos << std::endl;
 	}
@@ -577,6 +576,12 @@ namespace QDP
 	  QDPIO::cout << "Wrote checksum " << streamer.getChecksum() << " to disk. Current Position: " << streamer.currentPosition() << std::endl;
 	}
 
+	// The old value stays if the new one could not be written
+	if (streamer.fail())
+	  return -1;
+
+	key_ptr->second = convertToPrivate(wpos);
+
 	// Done
 	state = MODIFIED;
       }
@@ -587,9 +592,6 @@ namespace QDP
 	streamer.seekEnd(0);
 	pos_type pos = streamer.currentPosition();
       
-	// Insert pos into map
-	src_map.insert(std::make_pair(bin.str(), convertToPrivate(pos)));
-
 	streamer.resetChecksum();
 
 	// Add position to the map
@@ -620,6 +622,12 @@ namespace QDP
 	  QDPIO::cout << "Wrote checksum " << streamer.getChecksum() << " to disk. Current Position: " << streamer.currentPosition() << std::endl;
 	}
 
+	if (streamer.fail())
+	  return -1;
+
+	// Insert pos into map
+	src_map.insert(std::make_pair(bin.str(), convertToPrivate(pos)));
+
 	// Done
 	state = MODIFIED;
       }
-- 
2.43.0

