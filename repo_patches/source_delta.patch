From 7dae91b0490e2a78cbffbe5d9bf692ead5c3dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 01/90] fix: reading a row that ends at the end of the input no
 longer fails the stream

---
 ringing/row.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 61440fb..25f1c2f 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -560,7 +560,11 @@ RINGING_API istream& operator>>(istream& i, row& r)
     vector<bell> bells;  
     bells.reserve(r.bells()); // The only hint we might have available
 
-    while ( i && ( bell::is_symbol( i.peek() ) || i.peek() == '{' ) ) {
+    // Peek just once per bell: a second peek at the end of the stream would
+    // set failbit even though the row has been read.
+    int c;
+    while ( i && ( c = i.peek() ) != istream::traits_type::eof()
+              && ( bell::is_symbol( c ) || c == '{' ) ) {
       bell b;  
       i >> noskipws >> b;
       bells.push_back(b);
-- 
2.43.0


From 1cb59964dc9a7770b33c6775870ded9f9e0ed640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 02/90] fix: row_block of no rows wrote a row past its end

---
 ringing/row.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 25f1c2f..83e077d 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -604,7 +604,7 @@ static size_t row_block_base_size(vector<change> const& c, int flags)
 row_block::row_block(const vector<change> &c, int flags) 
   : vector<row>( row_block_base_size(c, flags) ), ch(c), flags(flags)
 {
-  if (ch.size()) {
+  if (ch.size() && size()) {
     (*this)[0] = row::rounds(ch[0].bells());
     recalculate();
   }
-- 
2.43.0


From f961bc48a01f4e69430dc6629868ec0e870aed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 03/90] fix: conjugator of rows on more bells than there are
 symbols

---
 ringing/row.cpp | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 83e077d..a086faa 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -630,43 +630,52 @@ row_block& row_block::recalculate(int start)
 
 RINGING_START_ANON_NAMESPACE
 
+// A cycle is kept as its bells, and not as their one-character symbols, so 
+// that stages which have run out of symbols work too.
+typedef vector<bell> cycle_t;
+
 struct cycle_cmp {
-  bool operator()( string const& x, string const& y ) const { 
+  bool operator()( cycle_t const& x, cycle_t const& y ) const { 
     return x.size() < y.size();
   }
 };
 
 struct cycle_eq {
-  bool operator()( string const& x, string const& y ) const { 
+  bool operator()( cycle_t const& x, cycle_t const& y ) const { 
     return x.size() == y.size();
   }
 };
 
-vector<string> conjugacy_class_vector( row const& r )
+vector<cycle_t> conjugacy_class_vector( row const& r )
 {
-  string c = r.cycles();
-  vector<string> v;  v.reserve( c.size() - r.bells() + 1 );
+  vector<cycle_t> v;  v.reserve( r.num_cycles() );
 
-  size_t i = 0;
-  for ( size_t j; (j = c.find(',', i)) != string::npos; i=j+1)
-    v.push_back( c.substr(i, j-i ) );
-  v.push_back( c.substr(i, c.size()-i) );
+  vector<bool> done( r.bells(), false );
+  for ( int i=0; i<r.bells(); ++i ) 
+    if ( !done[i] ) {
+      cycle_t c;
+      for ( bell b = i; !done[b]; b = r[b] ) {
+        done[b] = true;
+        c.push_back(b);
+      }
+      v.push_back(c);
+    }
 
   sort( v.begin(), v.end(), cycle_cmp() );
   return v;
 }
 
-bool are_conjugate_impl( vector<string> const& xc, vector<string> const& yc )
+bool are_conjugate_impl( vector<cycle_t> const& xc, vector<cycle_t> const& yc )
 {
   return xc.size() == yc.size() && 
     equal( xc.begin(), xc.end(), yc.begin(), cycle_eq() );
 }
 
-row cycles_as_row( vector<string> const& rc )
+row cycles_as_row( vector<cycle_t> const& rc )
 {
-  string s;
-  for ( vector<string>::const_iterator i=rc.begin(), e=rc.end(); i!=e; ++i )
-    s += *i;
+  cycle_t s;
+  for ( vector<cycle_t>::const_iterator i=rc.begin(), e=rc.end(); i!=e; ++i )
+    s.insert( s.end(), i->begin(), i->end() );
 
   return row(s);
 }
@@ -689,8 +698,8 @@ bool are_conjugate( row const& x, row const& y )
 //
 row conjugator( row const& x, row const& y )
 {
-  const vector<string> xc( conjugacy_class_vector(x) ),
-                       yc( conjugacy_class_vector(y) );
+  const vector<cycle_t> xc( conjugacy_class_vector(x) ),
+                        yc( conjugacy_class_vector(y) );
 
   if ( are_conjugate_impl(xc, yc) )
     return cycles_as_row(xc) * cycles_as_row(yc).inverse();
-- 
2.43.0


From e9c6e41ae7e8fef12b5b8605cf60f9c6c54b3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 04/90] fix: change::swappair read past its last swap when
 replacing it

---
 ringing/change.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/change.cpp b/ringing/change.cpp
index 4f4f170..dc51d88 100644
--- a/ringing/change.cpp
+++ b/ringing/change.cpp
@@ -180,7 +180,8 @@ bool change::swappair(bell which)
     if(*s == which - 1) { // The swap before it is there. Replace it
                           // with our new swap.
       *s++ = which;
-      if(*s == which + 1) // The swap after it is there too. Take it out.
+      if(s != swaps.end() && *s == which + 1) // The swap after it is there
+                                               // too. Take it out.
         swaps.erase(s);
       return true;
     }
-- 
2.43.0


From 59b0293b988ce51ff87a75c4d452c8fc443a8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 05/90] fix: reading {n} place notation looked at the character
 after the end

---
 ringing/place_notation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/place_notation.h b/ringing/place_notation.h
index 03d3c38..2fc89b1 100644
--- a/ringing/place_notation.h
+++ b/ringing/place_notation.h
@@ -97,7 +97,7 @@ ForwardIterator read_bell_expr(ForwardIterator first, ForwardIterator last) {
     for ( int depth = 0; first < last && !(*first == '}' && depth == 0);
           ++first ) {
       if (*first == '{') ++depth;
-      else if (*last == '}') --depth;
+      else if (*first == '}') --depth;
     }
     if ( first == last || *first != '}') throw bell::invalid();
     ++first;
-- 
2.43.0


From a0f35b971b97ed906dd994e170f958ceeb1a4a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 06/90] fix: only the first name given to set_untitled was ever
 used

---
 ringing/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index b3238ef..36bb6df 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -106,7 +106,8 @@ const char *method::txt_double       = "Double";
 const char *method::txt_little       = "Little";
 
 void method::set_untitled(string const& str) {
-  static string str_untitled = str;
+  static string str_untitled;
+  str_untitled = str;
   txt_untitled = str_untitled.c_str();
 }
 
-- 
2.43.0


From 960f6be10cd511c0385e0954af68c2c1801c9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 07/90] fix: maxblows was -1 for a method with no places

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 36bb6df..984cfac 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -642,7 +642,7 @@ string method::format( int flags ) const
 // Counts the maximum number of consecutive blows in one place
 int method::maxblows(void) const
 {
-  int maxn = 0;
+  int maxn = 2; // With no places at all, there is one blow in each position
 
   for ( const_iterator b(begin()), i(b), e(end()); i != e; ++i )
     for ( int p(0); p < bells(); ++p )
-- 
2.43.0


From 8b5783ee10651cd7b7b2344c831a99a902bd5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 08/90] fix: class of methods whose first hunt bell does not
 start at its lead end

---
 ringing/method.cpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 984cfac..72f3e42 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -250,19 +250,24 @@ bool method::issym(bell b) const
 // isplain : Does this bell plain hunt?
 bool method::isplain(bell b) const
 {
-  int j = b;
-  int dir = j & 1;		// Odd bells out, even bells in
-  int dirchanges = 0;		// Count changes of direction
-  for(int i = 0; i < length(); i++) {
-    if((*this)[i].findswap(j-1+dir)) return false; // No, that's a dodge.
-    if((*this)[i].findswap(j-dir)) // Carry on in the same direction
-      if(dir) j--; else j++;
-    else {			// Make a place and change direction
-      dir ^= 1;
-      dirchanges++;
-    }
-  } 
-  return (j == b && dirchanges == 2);
+  // The bell may be hunting in either direction at the start of the lead
+  for(int start = 0; start < 2; start++) {
+    int j = b;
+    int dir = start;		// 0 if hunting out, 1 if hunting in
+    int dirchanges = 0;		// Count changes of direction
+    int i;
+    for(i = 0; i < length(); i++) {
+      if((*this)[i].findswap(j-1+dir)) break; // No, that's a dodge.
+      if((*this)[i].findswap(j-dir)) // Carry on in the same direction
+        if(dir) j--; else j++;
+      else {			// Make a place and change direction
+        dir ^= 1;
+        dirchanges++;
+      }
+    } 
+    if(i == length() && j == b && dirchanges == 2) return true;
+  }
+  return false;
 }
 
 // hasdodges : Does this bell do any dodges?
@@ -362,7 +367,7 @@ int method::methclass(int year) const
     if(year < 2019 && hb == 0 && lhr[1] == 1 && issym(1))
       return cl | M_SLOW_COURSE;
     // Now see whether any of the working bells make any dodges
-    for (int i = 1; i < bells(); i++)
+    for (int i = 0; i < bells(); i++)
       if(hasdodges(i)) return cl | M_BOB;
     return cl | M_PLACE;
   }
@@ -398,10 +403,11 @@ int method::methclass(int year) const
       if(tmax - tmin == 1) return cl | M_TREBLE_BOB;
       // Look at internal places
       int y = 0, n = 0;
+      // The cross sections, working out from the symmetry point
       int step=length() / (tmax-tmin+1);
-      for(int i = step-1; i < length()/2 - 1; i += step) {
-	if((*this)[i].internal()) y = 1; else n = 1;
-	if((*this)[length()-i-2].internal()) y = 1; else n = 1;
+      for(int i = step; i < length()/2; i += step) {
+	if((*this)[(sym_point+i)%length()].internal()) y = 1; else n = 1;
+	if((*this)[(sym_point+length()-i)%length()].internal()) y = 1; else n = 1;
       }
       if(!y & n) return cl | M_TREBLE_BOB;
       if(y & !n) return cl | M_SURPRISE;
-- 
2.43.0


From 00389726d270f9042ec71d26880cec24d4459032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 09/90] fix: position_in_extent read past the end of a row on
 fewer bells

---
 ringing/extent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 5ae46dc..78a7a5d 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -104,10 +104,10 @@ position_in_extent( row const& r, unsigned nw, unsigned nh, unsigned nt )
 
   if (b > nt) 
     throw out_of_range( "Row has too many bells" );
-  for ( size_t i=0; i<nh; ++i )
+  for ( size_t i=0; i<nh && i<b; ++i )
     if ( r[i] != i )
       throw out_of_range( "Row does not have fixed trebles" );
-  for ( size_t i=nh+nw; i<nt; ++i )
+  for ( size_t i=nh+nw; i<nt && i<b; ++i )
     if ( r[i] != i )
       throw out_of_range( "Row does not have fixed tenors" );
 
-- 
2.43.0


From 3fddda6a2ed00ab1d1fdfbce7f87e54840578d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 10/90] fix: coset labels of rows on a different number of
 bells from the group

---
 ringing/group.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index 4bf2630..5181a27 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -277,14 +277,16 @@ row group::rcoset_label( row const& r ) const
   if ( size() >= 6 && is_direct_product_of_symmetric_groups( o, size() ) ) 
   {
     // Use an O(1) algorithm.
-    vector<bell> label( r.bells() );
+    // Bells not in the group (if r is on more bells) remain where they are.
+    row const pr( r * row(bells()) );
+    vector<bell> label( pr.begin(), pr.end() );
 
     for ( vector< vector<bell> >::const_iterator i=o.begin(), e=o.end(); 
             i != e; ++i ) {
       size_t n = i->size();
       vector<bell> v;
       for ( size_t j=0; j<n; ++j )
-        v.push_back( r.find( (*i)[j] ) );
+        v.push_back( pr.find( (*i)[j] ) );
 
       sort( v.begin(), v.end() );
       for ( size_t j=0; j<n; ++j ) {
-- 
2.43.0


From f9bf205cc1a23bb0bff7e972e7ed5d652035d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 11/90] fix: stage of a group conjugated by a row on more bells

---
 ringing/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index 5181a27..2829940 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -217,7 +217,7 @@ group group::conjugate( const row& r ) const
 {
   group g;
 
-  g.b = b;
+  g.b = b > size_t(r.bells()) ? b : r.bells();
   g.v.clear();  // Default constructor populates it with a single element
   g.v.reserve( v.size() );
 
-- 
2.43.0


From 93f2ce38b4cf3c4b54dbdcf74e3e77e0a40a2630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 12/90] fix: iterating a touch rang children repeated no times
 and ran off the end of empty ones

---
 ringing/touch.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ringing/touch.cpp b/ringing/touch.cpp
index d81a625..8d9dda8 100644
--- a/ringing/touch.cpp
+++ b/ringing/touch.cpp
@@ -84,7 +84,16 @@ private:
   friend class touch_child_list;
   iterator(list<entry>::const_iterator j, 
 	   list<entry>::const_iterator k) : i(j), last(k), count(0)
-  { if(i != last) { ci = (*i).second->begin(); } }
+  { start_child(); }
+
+  // Start on the child at i, or the first after it that has any changes
+  void start_child() {
+    for(; i != last; ++i) {
+      count = 0;
+      ci = (*i).second->begin();
+      if((*i).first != 0 && ci != (*i).second->end()) break;
+    }
+  }
 };
 
 
@@ -97,10 +106,7 @@ touch_node::iterator_base& touch_child_list::iterator::operator++()
       ci = (*i).second->begin();
     } else {
       ++i;
-      if(i != last) {
-	count = 0;
-	ci = (*i).second->begin();
-      }
+      start_child();
     }
   }
   return *this;
-- 
2.43.0


From 7ce8d42ec800c1d798a44721a00f432033625c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 13/90] fix: half lead falseness tables only looked at a
 quarter of the lead

---
 ringing/falseness.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5a24bfd..f865e5b 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -102,18 +102,13 @@ void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
   copy( fs.begin(), fs.end(), back_inserter(t) );
 }
 
-static int row_block_flags( int flags )
-{
-  int rb_flags = row_block::no_final_lead_head;
-  if (flags & falseness_table::half_lead_only) 
-    rb_flags |= row_block::half_lead_only;
-  return rb_flags;
-}
+// If only the half lead is wanted, init() takes the first half.
+static const int row_block_flags = row_block::no_final_lead_head;
 
 falseness_table::falseness_table( const method &m, int flags )
   : flags(flags)
 {
-  row_block rb(m, row_block_flags(flags));
+  row_block rb(m, row_block_flags);
   init( rb, rb );
 }
 
@@ -121,14 +116,14 @@ falseness_table::falseness_table( const method &a, const vector<row>& b,
                                   int flags )
   : flags(flags)
 {
-  init( row_block( a, row_block_flags(flags) ), b );
+  init( row_block( a, row_block_flags ), b );
 }
 
 falseness_table::falseness_table( const method &a, const method& b, int flags )
   : flags(flags)
 {
-  init( row_block( a, row_block_flags(flags) ), 
-        row_block( b, row_block_flags(flags) ) );
+  init( row_block( a, row_block_flags ), 
+        row_block( b, row_block_flags ) );
 }
 
 falseness_table::falseness_table( const vector<row> &a, const vector<row>& b, 
-- 
2.43.0


From adcee9ae8bde6895f469e3c3ba92b9e14683c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 14/90] fix: a prover branching from a false touch thought it
 was true

---
 ringing/proof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 4405f39..84bf1bc 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -177,6 +177,7 @@ prover::create_branch( shared_pointer<prover> const& chain )
   p->chain      = chain;
   p->max_occurs = chain->max_occurs;
   p->lineno     = chain->lineno;
+  p->falsec     = chain->falsec;
   p->dups       = chain->dups;
   p->fi         = chain->fi;
   // NB do not copy chain->m.
-- 
2.43.0


From a20cbab6da5d83ee858d95d4a6bf9efa090c7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 15/90] fix: false rows in a branched proof omitted the lines
 before the branch

---
 ringing/proof.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 84bf1bc..8e38e58 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -109,13 +109,13 @@ bool prover::add_row( const row &r )
 	  // in this range, we explicitly add it by hand afterwards.
 	  l._row = r;
 	  bool added_i = false;
-	  {
-	    for ( mmap::iterator j = rng.first; j != rng.second; ++j )
+	  for ( list<range>::const_iterator ri = ranges.begin(), 
+		  re = ranges.end(); ri != re; ++ri )
+	    for ( mmap::iterator j = ri->first; j != ri->second; ++j )
 	      {
 		if ( j == i ) added_i = true;
 		l._lines.push_back( j->second );
 	      }
-	  }
 	  if (!added_i) 
 	    l._lines.push_back( i->second );
 
-- 
2.43.0


From 07ceacc4b4e6e38cf47569d92e8f1f7ca6a36087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 16/90] fix: removing a row from a proof left wrong lines in
 the list of false rows

---
 ringing/proof.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 8e38e58..b17e995 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -148,8 +148,14 @@ void prover::remove_row( const row& r )
   if ( rng.first == rng.second ) 
     throw logic_error( "Row does not exist at proof head to be removed" );
 
+  // Remove the most recent of the instances of the row
+  mmap::iterator last( rng.first );
+  for ( mmap::iterator j = rng.first; j != rng.second; ++j )
+    if ( j->second >= last->second ) last = j;
+  int const line( last->second );
+
   --lineno;
-  m.erase( prior( rng.second ) );
+  m.erase( last );
 
   if ( n > 1 )
     --dups;
@@ -162,8 +168,11 @@ void prover::remove_row( const row& r )
 	  for ( failinfo::iterator j = fi->begin(), e = fi->end(); j != e; ++j)
 	    if ( j->_row == r )
 	      {
-		j->_lines.pop_back(); 
-                if ( j->_lines.empty() ) fi->erase(j);
+		list<int>::iterator k 
+		  = find( j->_lines.begin(), j->_lines.end(), line );
+		if ( k != j->_lines.end() ) j->_lines.erase(k);
+                // Is the row no longer repeated too often?
+                if ( (int) n - 1 <= max_occurs ) fi->erase(j);
                 break;
 	      }
         }
-- 
2.43.0


From 95bf9ab4406030da5f3946d10576adf57dfde01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 17/90] fix: a full proof only reported the first false row,
 and kept those of earlier proofs

---
 ringing/proof.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index 0ac162d..fcf0982 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -248,10 +248,11 @@ bool proof<RowIterator>::prove(RowIterator true_first,
 {
   scoped_pointer<prover> p( qp ? new prover(max) : new prover(where, max) );
   istrue = true;
+  where.clear();
   for ( ; true_first != true_last && (!qp || istrue) ; ++true_first )
-    istrue = istrue && p->add_row( *true_first );
+    istrue = p->add_row( *true_first ) && istrue;
   for ( ; unknown_first != unknown_last && (!qp || istrue) ; ++unknown_first )
-    istrue = istrue && p->add_row( *unknown_first );
+    istrue = p->add_row( *unknown_first ) && istrue;
   return istrue;
 }
 
-- 
2.43.0


From 82d98831556d110bdb2940f30bed872b104e2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 18/90] fix: constructing a proof of false rows used its list
 of failures before it existed

---
 ringing/proof.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index fcf0982..894f849 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -228,8 +228,9 @@ public:
   int operator!() const { return !istrue; }
 
 private:
+  failinfo where;                // Details of where it failed.  (The constructors
+                                 // fill this in while initialising istrue.)
   bool istrue;                   // Well, is it true or not?
-  failinfo where;                // Details of where it failed.
 }; 
 
 /******************************************
-- 
2.43.0


From a275fed3dc83453c5fc88028c3ddf2a86a059961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 19/90] fix: stepping an extent iterator back from the end left
 it at the end

---
 ringing/extent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 78a7a5d..4a549dd 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -74,6 +74,7 @@ extent_iterator &extent_iterator::operator--()
     for ( unsigned i=nh; i<nw+nh; ++i ) v[i] = nw+nh-1 - i + nh;
     for ( unsigned i=nw+nh; i<nt; ++i ) v[i] = i;
     r.swap(v);
+    end_ = false;
   } 
   else {
     vector<bell> v; r.swap(v);
-- 
2.43.0


From def62906283ce4d49d5c002a1ee4e1cd1a504be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 20/90] fix: clearing a music object left its patterns in the
 list

---
 ringing/music.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 49039b2..193a1e4 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -381,7 +381,7 @@ void music::clear(unsigned int new_b)
 {
   if (new_b) b = new_b;
   top_node.reset( new music_node(b) );
-  reset_music();
+  info.clear();
 }
 
 // Specify the music and add it into the search structure
-- 
2.43.0


From 0f24908bbb6e8355895a240fbff1199d4c33b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 21/90] fix: a music score with an explicit plus sign was
 refused

---
 ringing/music.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 193a1e4..b6249cf 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -590,7 +590,8 @@ void music::add_scored_music_string( string const& s )
             scoreh = atoi( pattern.c_str() );
             comma = j;
           }
-        else if ( !isdigit( pattern[j] ) && pattern[j] != '-' )
+        else if ( !isdigit( pattern[j] ) 
+                  && pattern[j] != '+' && pattern[j] != '-' )
           break;
     }
 
-- 
2.43.0


From ff9bc8690d16138de838cb210b873bd637b47fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 22/90] fix: music patterns with a star missed rows or counted
 them more than once

---
 ringing/music.cpp | 156 +++++++++++++++++++---------------------------
 1 file changed, 64 insertions(+), 92 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index b6249cf..2fda87d 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -28,6 +28,7 @@
 #include <cctype>
 #include <cstdio>
 #include <cstring>
+#include <set>
 
 RINGING_START_NAMESPACE
 
@@ -43,13 +44,13 @@ class music_node
 public:
   // Have to know how many bells there are
   music_node(unsigned int b) : bells(b) {} 
-  void set_bells(unsigned int b);
 
   void add(const string &mds, unsigned int i, unsigned int key, 
            unsigned int pos);
 
   bool match(const row &r, unsigned int pos, vector<music_details> &results, 
-             const EStroke &stroke, vector<bell> const& wildcard_matches) const;
+             const EStroke &stroke, vector<bell> const& wildcard_matches,
+             set<unsigned int> &matched_keys) const;
 
   // Helper function to work with cloning_pointer.
   music_node* clone() const { return new music_node(*this); }
@@ -73,29 +74,9 @@ private:
   unsigned int bells;
 
   void add_to_subtree(unsigned place, const string &mds, unsigned i, 
-                      unsigned key, unsigned pos, bool process_star);
+                      unsigned key, unsigned pos);
 };
 
-unsigned int count_bells(const string &s)
-{
-  unsigned int total = 0;
-  string::const_iterator i;
-  int brackets = 0;
-  for (i = s.begin(); i != s.end(); i++) {
-    if (*i == '?')
-      total++;
-    else if (*i == '[')
-      brackets = 1;
-    else if (*i == ']') {
-      total++; // [...] = 1 bell.
-      brackets = 0;
-    }
-    else if (brackets == 0 && bell::is_symbol(*i))
-      total++;
-  }
-  return total;
-}
-
 // ********************************************************
 // function definitions for MUSIC_DETAILS
 // ********************************************************
@@ -213,16 +194,6 @@ bool music_details::check_bells( unsigned bells ) const
 // function definitions for MUSIC_NODE
 // ********************************************************
 
-void music_node::set_bells(unsigned int b)
-{
-  bells = b;
-
-  // and iterate over each subnode setting it there
-  for (BellNodeMap::iterator i=subnodes.begin(), e=subnodes.end(); i!=e; ++i)
-    if (i->second)
-      i->second->set_bells(b);
-}
-
 // "mds" is the pattern as a string, and "i" is the current character offset
 // into it (as we are called recursively).  "key" is used to identify which
 // pattern matched, if we have several patterns.  "pos" is the logical offset
@@ -231,29 +202,50 @@ void music_node::add(const string &mds, unsigned int i,
                      unsigned int key, unsigned int pos)
 {
   // If we've reached the end of the string, add the key, which will tell
-  // match() that the pattern identified by the key has matched.
-  if (i >= mds.size()) 
-    detailsmatch.push_back(key);
-
-  // If we're trying to match more bells than there are, it must fail,
-  // so we may as well stop now.
-  else if (pos > bells)
-    return;
+  // match() that the pattern identified by the key has matched.  A pattern 
+  // without a '*' only has to match the start of the row; otherwise, the
+  // whole row must have been matched by now. 
+  if (i >= mds.size()) {
+    if (pos == bells || mds.find('*') == string::npos)
+      detailsmatch.push_back(key);
+  }
 
   // Look at the next token in pattern and generate a subnode for it.  
   else {
     char const* p = mds.c_str() + i;
 
+    // An variable length wildcard
+    if (*p == '*') {
+      // If there's nothing more in the string, just put the instruction
+      // to match the row here.
+      if (i+1 == mds.size())
+        detailsmatch.push_back(key);
+
+      else {
+        // First ignore the star and just move on.
+        add(mds, i + 1, key, pos);
+
+        // Now have the star match a bell, and stay on it
+        if (pos < bells)
+          add_to_subtree(0, mds, i, key, pos);
+      }
+    }
+
+    // If we're trying to match more bells than there are, it must fail,
+    // so we may as well stop now.
+    else if (pos >= bells)
+      return;
+
     // Simple bell (possibly in extended form), read it, add it and move on.
-    if (bell::is_symbol(*p) || *p == '{') {
+    else if (bell::is_symbol(*p) || *p == '{') {
       char const* endp = p;
       bell b( bell::read_extended(p, &endp) );
-      add_to_subtree(b+1, mds, i + (endp-p) - 1, key,  pos, false);
+      add_to_subtree(b+1, mds, i + (endp-p), key, pos);
     }
 
     // A single bell wildcard: add it to the 0 wildcard map position
     else if (*p == '?') 
-      add_to_subtree(0, mds, i, key, pos, false);
+      add_to_subtree(0, mds, i + 1, key, pos);
       
     // A set of alternatives: add each one individually
     else if (*p == '[') {
@@ -264,73 +256,44 @@ void music_node::add(const string &mds, unsigned int i,
         if (bell::is_symbol(*q) || *q == '{') {
           char const* endp = q;
           bell b( bell::read_extended(q, &endp) );
-          add_to_subtree(b+1, mds, newpos, key, pos, false);
+          add_to_subtree(b+1, mds, newpos + 1, key, pos);
           q = endp;
         }
         else throw music_details::invalid_regex(mds, 
           make_string() << "Invalid character in []: " << *q );
       }
     }
-
-    // An variable length wildcard
-    else if (*p == '*') {
-      // If there's nothing more in the string, just put the instruction
-      // to match the row here.
-      if (i+1 == mds.size())
-        detailsmatch.push_back(key);
-
-      // Is this the last * in the pattern?  If so, it is handled by
-      // add_to_subtree().
-      else if (mds.find('*', i + 1) == string::npos) 
-        add_to_subtree(0, mds, i, key, pos, true);
-          
-      else {
-        // We have something like '*456*'
-        // First ignore the star and just move on.
-        add(mds, i + 1, key, pos);
-        // Now deal with the star
-        if (mds.size() - i >= pos)
-          add_to_subtree(0, mds, i, key, pos, true);
-        else
-          add_to_subtree(0, mds, i, key, pos, false);
-      }
-    }
     else throw music_details::invalid_regex(mds, 
       make_string() << "Invalid character in pattern: " << *p );
   }
 }
 
-void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned int i, unsigned int key, unsigned int pos, bool process_star)
+// Adds the rest of the pattern, starting at offset "i", to the subnode for
+// "place". 
+void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned int i, unsigned int key, unsigned int pos)
 {
   cloning_pointer<music_node>& j = subnodes[place];
   if (!j) j.reset( new music_node(bells) );
 
-  if (process_star)
-    {
-      // We are to process star data star.
-      if (bells - pos == count_bells(mds.substr(i, mds.size() - i)) + 1 &&
-	  mds.find('*', i + 1) >= mds.size())
-	// There are now only numbers to go.
-	j->add(mds, i + 1, key, pos + 1);
-      else
-	// We haven't got to the last * position yet, so carry on.
-	j->add(mds, i, key, pos + 1);
-    }
-  else
-    {
-      // Not a star, so move on as normal.
-      j->add(mds, i + 1, key, pos + 1);
-    }
+  j->add(mds, i, key, pos + 1);
 }
 
 bool music_node::match(const row &r, unsigned int pos, 
                        vector<music_details> &results, const EStroke &stroke, 
-                       vector<bell> const& wilds) const
+                       vector<bell> const& wilds,
+                       set<unsigned int> &matched_keys) const
 {
   bool matched = false;
 
   for ( vector<unsigned int>::const_iterator 
           i = detailsmatch.begin(), e = detailsmatch.end();  i != e;  ++i ) {
+    matched = true;
+
+    // A pattern such as '*[56]*' can match the row in more than one way,
+    // but must only be counted once.
+    if ( !matched_keys.insert(*i).second )
+      continue;
+
     // Append any bells that we haven't yet matched due to a wildcard
     vector<bell> wilds2(wilds); 
     for (unsigned k = pos; k < r.bells(); ++k)
@@ -338,9 +301,11 @@ bool music_node::match(const row &r, unsigned int pos,
 
     results[*i].increment(stroke);
     results[*i].last_wildcards = wilds2;
-    matched = true;
   }
 
+  if (pos >= r.bells())
+    return matched;
+
   // Is there a wildcard subnode at index 0?
   BellNodeMap::const_iterator j = subnodes.find(0);
   if (j != subnodes.end()) {
@@ -348,13 +313,15 @@ bool music_node::match(const row &r, unsigned int pos,
     vector<bell> wilds2(wilds); 
     wilds2.push_back(r[pos]);
 
-    matched = j->second->match(r, pos + 1, results, stroke, wilds2) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, 
+                               wilds2, matched_keys) || matched;
   }
     
   // Is there a subnode matching this specific bell?
   j = subnodes.find(r[pos] + 1);
   if (j != subnodes.end())
-    matched = j->second->match(r, pos + 1, results, stroke, wilds) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, 
+                               wilds, matched_keys) || matched;
 
   return matched;
 }
@@ -400,8 +367,12 @@ void music::set_bells(unsigned int new_b)
     for (iterator i=info.begin(), e=info.end(); i!=e; ++i)
       i->check_bells(new_b);
 
-    top_node->set_bells(new_b);
     b = new_b;
+
+    // How the patterns are stored depends on the number of bells.
+    top_node.reset( new music_node(b) );
+    for (size_type i=0; i<info.size(); ++i)
+      top_node->add(info[i].get(), 0, i, 0);
   }
 }
 
@@ -420,8 +391,9 @@ bool music::process_row(const row &r, bool back)
   for (music_details& md : info)
     md.last_wildcards.clear();
 
+  set<unsigned int> matched_keys;
   return top_node->match(r, 0, info, back ? eBackstroke : eHandstroke,
-                         vector<bell>());
+                         vector<bell>(), matched_keys);
 }
 
 // Return the total score for all items
-- 
2.43.0


From 6202a63fe496d43b087d6d2c7f474753e43bea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 23/90] fix: the number of rows matching a music pattern was
 wrong for repeated bells, sets and stars

---
 ringing/row_wildcard.cpp | 481 ++++++++++++---------------------------
 ringing/row_wildcard.h   |  16 --
 2 files changed, 148 insertions(+), 349 deletions(-)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 2594ff2..fbf4b71 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -28,7 +28,9 @@
 #include <ringing/bell.h>
 
 #include <string>
-#include <cassert>
+#include <map>
+#include <set>
+#include <vector>
 
 RINGING_START_NAMESPACE
 
@@ -66,172 +68,6 @@ bool row_wildcard::set_bells( unsigned bells )
   return true;
 }
 
-RINGING_START_ANON_NAMESPACE
-
-// Count 1 for each '?', bell symbol, or [...]; and none for a '*'.
-unsigned int count_bells(const string &s)
-{
-  unsigned int total = 0;
-  string::const_iterator i;
-  bool in_brackets = false;
-  for (i = s.begin(); i != s.end(); i++)
-    {
-      if (*i == '?')
-	{
-	  total++;
-	}
-      else if (*i == '[')
-	{
-	  in_brackets = true;
-	}
-      else if (*i == ']')
-	{
-	  total++; // [...] = 1 bell.
-	  in_brackets = false;
-	}
-      else if ( !in_brackets && bell::is_symbol(*i) )
-	{
-	  total++;
-	}
-    }
-  return total;
-}
-
-string expand_star( string const& src, unsigned star_pos, unsigned count )
-{
-  string expanded( src, 0, star_pos );
-  expanded.append( count, '?' );
-  expanded.append( src, star_pos + 1, src.size() - star_pos - 1);
-  return expanded;
-}
-
-RINGING_END_ANON_NAMESPACE
-
-void row_wildcard::copy_choices( string& dest, 
-                                 string const& src, unsigned& pos ) const
-{
-  assert( src[pos] == '[' );
-  unsigned p_end = src.find( ']', pos );
-  if ( p_end == string::npos ) 
-    RINGING_THROW_OR_EXPR( 
-      row_wildcard::invalid_pattern( pat, "Missing ]" ),
-      p_end = src.size()-1 );
-
-  dest.append( src, pos, p_end-pos+1 );
-  pos = p_end;
-}
-
-bool row_wildcard::copy_if_choices_contains( string& dest, 
-                                             string const& src, unsigned& pos,
-                                             char sym ) const
-{
-  assert( src[pos] == '[' );
-  unsigned p_end = src.find( ']', pos );
-  if ( p_end == string::npos ) 
-    RINGING_THROW_OR_EXPR( 
-      row_wildcard::invalid_pattern( pat, "Missing ]" ),
-      p_end = src.size()-1 );
-
-  unsigned p_sym = src.find( sym, pos );
-  if ( p_sym > p_end ) return false;
-  dest += sym;
-  pos = p_end;
-  return true;
-}
-
-bool row_wildcard::copy_choices_intersection( string& dest, 
-                                              string const& a, unsigned& ai,
-                                              string const& b, unsigned& bi )
-                                                                         const
-{
-  assert( a[ai] == '[' && b[bi] == '[' );
-  dest += '['; 
-
-  unsigned b_init = bi;
-  bool had_one = false;
-  for ( ++ai; a[ai] != ']'; ++ai ) {
-    bi = b_init;
-    if ( copy_if_choices_contains( dest, b, bi, a[ai] ) ) 
-      had_one = true;
-  }
-
-  dest += ']';
-  return had_one;
-}
-
-
-// This is not a general purpose intersection function -- it only 
-// parses A and B up to the first '*' and assumes that they are 
-// identical after that.  Returns false if the intersection is
-// necessarily zero.
-bool row_wildcard::make_intersection( string& dest, 
-                                      string const& a, string const& b ) const
-{
-  unsigned ai = 0, bi = 0;
-  unsigned an = a.find('*'), bn = b.find('*');
-  assert( an != string::npos && bn != string::npos );
-  assert( a.substr(an) == b.substr(bn) );
-
-  while ( ai != an || bi != bn ) 
-  {
-    bool a_wild = ( a[ai] == '*' || a[ai] == '?' );
-    bool b_wild = ( b[bi] == '*' || b[bi] == '?' );
-
-    bool a_bell = bell::is_symbol( a[ai] );
-    bool b_bell = bell::is_symbol( b[bi] );
-
-    bool a_set  = ( a[ai] == '[' );
-    bool b_set  = ( b[bi] == '[' );
-
-    if ( a_wild && b_wild ) 
-      dest += '?';
-
-    else if ( a_wild && b_bell )
-      dest += b[bi];
-    else if ( b_wild && a_bell )
-      dest += a[ai];
-
-    else if ( a_bell && a_bell ) {
-      if ( a[ai] == b[bi] ) 
-        dest += a[ai];
-      else return false;
-    }
-
-    else if ( a_wild && b_set ) 
-      copy_choices( dest, b, bi );  // bi now refers to ']'
-    else if ( b_wild && a_set ) 
-      copy_choices( dest, a, ai );  // bi now refers to ']'
-
-    else if ( a_bell && b_set ) {
-      if ( !copy_if_choices_contains(dest, b, bi, a[ai]) ) 
-        return false;
-    }
-    else if ( b_bell && a_set ) {
-      if ( !copy_if_choices_contains(dest, a, ai, b[bi]) ) 
-        return false;
-    }
-
-    else if ( a_set && b_set ) {
-      if ( !copy_choices_intersection(dest, a, ai, b, bi) )
-        return false;
-    }
-
-    else RINGING_THROW_OR_RETURN( 
-      row_wildcard::invalid_pattern( string(), 
-        string("Unknown symbol: ") 
-          + ( a_set || a_wild || a_bell ? b[bi] : a[ai] ) ),
-      false );
-
-
-    if ( ai < an ) ++ai;
-    if ( bi < bn ) ++bi;
-  }
-
-  dest += a.substr(an);
-  return true;
-}
-
-
 // Function to provide a brief check if an expression is valid/invalid.
 bool row_wildcard::check_expression() const
 {
@@ -277,182 +113,161 @@ bool row_wildcard::check_expression() const
   return true;
 }
 
-RINGING_ULLONG row_wildcard::count( unsigned bells ) const
+RINGING_START_ANON_NAMESPACE
+
+// Counting the number of rows which match a pattern is harder than it might 
+// seem.  E.g. we need to be able to determine that [12][23][34][14] only 
+// actually has two matches, as once the first bell has been chosen, the rest
+// is forced; and that '*[35]*' matches 120 rows on five bells, even though 
+// each of them matches it in two ways.
+//
+// We do this by choosing the bells of the row one at a time while keeping
+// track of all the positions in the pattern that we might have reached.  The
+// number of ways of completing the row depends only on those positions and on
+// which bells have been used already, and so can be remembered.  Bells that 
+// are not mentioned in the pattern are interchangeable, so only the number of
+// them matters.
+class pattern_counter
 {
-  int q = 0;
-  if (!bells) bells = b;
+public:
+  pattern_counter( string const& pat, unsigned bells );
 
-  if (!bells)
-    RINGING_THROW_OR_RETURN(
-      invalid_pattern(pat, "Number of bells unspecified"), 0 );
-    
-  return possible_matches(bells, 0, pat, q);
-}
+  RINGING_ULLONG count() {
+    positions p;  p.insert(0);
+    return count( close(p), vector<bool>( mentioned.size(), false ), others );
+  }
 
-// This function is subtle: counting the number of possible matches
-// is harder than it might seem.  E.g. we need to be able to 
-// determine that [12][23][34][14] only actually has two matches --
-// once the first bell has been chosen, the rest is forced.
-//
-// The function is called recursively to iterate through the pattern string
-// which is passed in S, position by position, where POS is the offset into
-// S of the character we're considering.   When a '[...]' is encountered,
-// recurse try each possibility in turn, thus the leading substring of S
-// -- i.e. the section [0, POS) -- never contains a [].  When a '*' is 
-// encountered, we rewrite it as a sequence of '?'s.  If multiple '*'s are
-// present, we try each possibility separately -- and, critically, subtract
-// the double-counting due to a single row matching multiple times (see 
-// comment below for discussion).  Q keeps track of the number of '?'s 
-// already found; we multiply by Q each time we find one with the overall 
-// result of Q! for a series of Q '?'s.
-//
-RINGING_ULLONG row_wildcard::possible_matches
-  ( unsigned int bells, unsigned int pos, const string &s, int &q ) const
+private:
+  struct token { 
+    enum type_t { one, any, star } type;  
+    set<unsigned> choices;
+  };
+  typedef set<size_t> positions;
+
+  // Include everything that can be reached by ignoring a '*'
+  positions close( positions p ) const {
+    for ( positions::iterator i=p.begin(); i != p.end(); ++i )
+      if ( *i < tokens.size() && tokens[*i].type == token::star ) 
+        p.insert( *i + 1 );
+    return p;
+  }
+
+  // The positions after a bell, where bell is ~0u if it is not mentioned.
+  positions advance( positions const& p, unsigned bell ) const {
+    positions q;
+    for ( positions::const_iterator i=p.begin(); i != p.end(); ++i )
+      if ( *i < tokens.size() ) {
+        token const& t = tokens[*i];
+        if ( t.type == token::star )
+          q.insert( *i );
+        else if ( t.type == token::any || t.choices.count(bell) )
+          q.insert( *i + 1 );
+      }
+    return close(q);
+  }
+
+  RINGING_ULLONG count( positions const& p, vector<bool> const& used, 
+                        unsigned others_left );
+
+  vector<token> tokens;
+  vector<unsigned> mentioned;
+  unsigned others;
+  map< pair< positions, pair< vector<bool>, unsigned > >, RINGING_ULLONG > memo;
+};
+
+pattern_counter::pattern_counter( string const& pat, unsigned bells )
 {
-  if (pos >= s.size())
+  set<unsigned> seen;
+
+  bool in_brackets = false, had_star = false;
+  for ( string::const_iterator i = pat.begin(); i != pat.end(); ++i )
     {
-      // Elsewhere (and traditionally in the music_details class) we
-      // consider a overly-short pattern without a star (e.g. '5') to
-      // have an implicit trailing '*'.  For consistency, lets do that here.
-      if ( count_bells(s) < bells )
-        return possible_matches( bells, pos, s + '*', q );
-      else
-        return 1;
+      if ( *i == ']' ) 
+        { in_brackets = false; continue; }
+
+      if ( !in_brackets ) 
+        {
+          token t;
+          t.type = *i == '?' ? token::any 
+                             : *i == '*' ? token::star : token::one;
+          if ( t.type == token::star ) had_star = true;
+          tokens.push_back(t);
+        }
+
+      if ( *i == '[' ) 
+        in_brackets = true;
+      else if ( bell::is_symbol(*i) ) 
+        {
+          unsigned b = bell::read_char(*i);
+          tokens.back().choices.insert(b);
+          if ( b < bells ) seen.insert(b);
+        }
     }
-  else
+
+  // Elsewhere (and traditionally in the music_details class) we consider a 
+  // overly-short pattern without a star (e.g. '5') to have an implicit 
+  // trailing '*'.  For consistency, lets do that here.
+  if ( !had_star )
     {
-      if (bell::is_symbol(s[pos]))
-	{
-	  return possible_matches(bells, pos + 1, s, q);
-	}
-      else if (s[pos] == '?')
-	{
-	  int new_q = ++q;
-	  return possible_matches(bells, pos + 1, s, q) * new_q;
-	}
-      else if (s[pos] == '[')
-	{
-	  RINGING_ULLONG total = 0;
+      token t;  t.type = token::star;
+      tokens.push_back(t);
+    }
 
-	  // Replace the [...] with each item in it and 
-	  // pass through again.
-	  unsigned int lastpos = s.find(']', pos + 1);
-	  for (unsigned int i = pos + 1; i < lastpos; i++)
-	    {
-	      string modified(s, 0, pos);
-	      unsigned int newpos = modified.size();
-	      // Only do this if the bell isn't in the string already,
-              // and if it isn't already in the alternatives group.  Thus,
-              // [5][5]* will never match anything, and [55]* doesn't double
-              // count rows beginning with 5.
-	      if (modified.find(s[i]) == string::npos &&
-                  s.find(s[i],pos) == i)
-		{
-		  modified += s[i];
-		  modified += s.substr(lastpos + 1, s.size() - lastpos - 1);
-
-	          int orig_q = q;
-		  total += possible_matches(bells, newpos, modified, q);
-		  q = orig_q;
-		}
-	    }
+  mentioned.assign( seen.begin(), seen.end() );
+  others = bells - mentioned.size();
+}
 
-	  return total;
-	}
-      else if (s[pos] == '*')
-	{
-          // Two consecutive '*'s should be replaced with a single one
-          // as the code to handle the intersection between moving sections
-          // is inefficient and this is one of the worst cases.
-          if ( s.size() > pos + 1 && s[pos+1] == '*' ) 
-            {
-              string modified( s, 0, pos );
-              modified.append( s, pos + 1, s.size() - pos - 1 );
- 
-              return possible_matches( bells, pos, modified, q );
-            }
-
-          // The largest number of '?'s that this could represent.
-          const unsigned n = bells - count_bells(s);
-
-	  if ( s.size() == pos + 1 || s.find('*', pos + 1) == string::npos )
-	    {
-	      // Pattern has just 1 star, so replace with maximum '?'
-	      return possible_matches(bells, pos, expand_star(s, pos, n), q);
-	    }
-	  else
-	    {
-       	      // More than 1 star. Replace string with 0, 1, 2... '?'
-	      // and calculate at each stage
-              //
-              // However, just doing this is not sufficient as it would
-              // have '*[35]*' match 240 different rows on five bells.
-              // The problem arises because we fail to handle the overlap 
-              // between '*5*' and '*3*'.  Both correctly match 120 times, 
-              // but that does not mean that '*[53]*' should match 120+120 
-              // times.
-              //
-              // When we expand the first '*' in '*[35]*' we sum the matches
-              // '[35]*' + '?[35]*' + '??[35]*' + '???[35]*' + '????[35]*'.
-              // However, we also need to subtract the intersections
-              // between each of the 5*4/2=10 pairs.  For example, the first
-              // intersection '[35]*' AND '?[35]*' is '[35][35]*' which 
-              // matches 2x6=12 times.  The other nine intersections 
-              // contribute the same giving a total of 240-10*12 = 120.
-              //
-              // However, as a useful optimisation, we can observe that
-              // the intersections are all zero iff the fragment of the
-              // pattern between the two '*'s includes a fixed bell.   For
-              // example, '*5*3*1*' has a fixed bell between each pair of 
-              // '*'s and so is correctly calculated (20 on five bells)
-              // without calculating the intersection.  As calculating
-              // the intersection is O(BELLS^2), this is best avoided 
-              // where possible.
-              //
-              bool need_intersection = true;
-              {
-                size_t frag_end = s.find('*', pos + 1);
-                bool in_bracket = false;
-                bool had_fixed_bell = false;
-                for ( unsigned i = pos+1; i < frag_end; ++i )
-                  if ( s[i] == '[' ) 
-                    in_bracket = true;
-                  else if ( s[i] == ']' ) 
-                    in_bracket = false;
-                  else if ( !in_bracket && bell::is_symbol(s[i]) ) 
-                    need_intersection = false;
-              }
-
-	      RINGING_ULLONG total = 0;
-
-  	      for ( unsigned i = 0; i <= n; ++i )
-		{
-		  string modified = expand_star(s, pos, i);
-
-	          int orig_q = q;
-		  total += possible_matches(bells, pos, modified, q);
-		  q = orig_q;
-
-                  for ( unsigned j = 0; need_intersection && j < i; ++j )
-                    {
-                      string intersect;
-                      if ( make_intersection
-                             ( intersect, modified, expand_star(s,pos,j) ) )
-                        total -= possible_matches( bells, pos, intersect, q );
-
-                      q = orig_q;
-                    }
-		}
-
-	      return total;
-	    }
-	}
-      else
-	{
-          RINGING_THROW_OR_RETURN( 
-            invalid_pattern(pat, string("Unknown character: ") + s[pos]), 0 );
-	}
+RINGING_ULLONG pattern_counter::count( positions const& p, 
+                                       vector<bool> const& used, 
+                                       unsigned others_left )
+{
+  if ( p.empty() ) return 0;
+
+  unsigned left = others_left;
+  for ( size_t i=0; i < used.size(); ++i ) 
+    if ( !used[i] ) ++left;
+
+  // The whole pattern has been matched, save perhaps for a trailing '*' in 
+  // which case the remaining bells can be in any order.
+  if ( tokens.back().type == token::star && p.count( tokens.size()-1 ) ) 
+    {
+      RINGING_ULLONG f = 1;
+      for ( ; left > 1; --left ) f *= left;
+      return f;
     }
+  if ( left == 0 )
+    return p.count( tokens.size() );
+
+  pair< positions, pair< vector<bool>, unsigned > > const 
+    key( p, make_pair( used, others_left ) );
+  if ( memo.count(key) )
+    return memo[key];
+
+  RINGING_ULLONG total = 0;
+  for ( size_t i=0; i < used.size(); ++i ) 
+    if ( !used[i] )
+      {
+        vector<bool> used2( used );  
+        used2[i] = true;
+        total += count( advance( p, mentioned[i] ), used2, others_left );
+      }
+  if ( others_left )
+    total += others_left * count( advance( p, ~0u ), used, others_left-1 );
+
+  return memo[key] = total;
+}
+
+RINGING_END_ANON_NAMESPACE
+
+RINGING_ULLONG row_wildcard::count( unsigned bells ) const
+{
+  if (!bells) bells = b;
+
+  if (!bells)
+    RINGING_THROW_OR_RETURN(
+      invalid_pattern(pat, "Number of bells unspecified"), 0 );
+    
+  return pattern_counter( pat, bells ).count();
 }
 
 #if RINGING_USE_EXCEPTIONS
diff --git a/ringing/row_wildcard.h b/ringing/row_wildcard.h
index 18bf7f9..f3fc370 100644
--- a/ringing/row_wildcard.h
+++ b/ringing/row_wildcard.h
@@ -72,22 +72,6 @@ public:
 private:
   bool check_expression() const;
 
-  void copy_choices
-    ( string& dest, string const& src, unsigned& pos ) const;
-
-  bool copy_if_choices_contains
-    ( string& dest, string const& src, unsigned& pos, char sym ) const;
-
-  bool copy_choices_intersection 
-    ( string& dest, string const& a, unsigned& ai,
-                    string const& b, unsigned& bi ) const;
-
-  bool make_intersection
-    ( string& dest, string const& a, string const& b ) const;
-
-  RINGING_ULLONG possible_matches
-    ( unsigned int bells, unsigned int pos, const string &s, int &q ) const;
-
   // Data members
   string pat;
   unsigned b;
-- 
2.43.0


From 2f87379fc2add5a20116ac6bb7cbc277ca057acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 24/90] fix: the older table search constructors left the
 length range uninitialised

---
 ringing/table_search.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index edf138e..c58f80c 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -90,14 +90,14 @@ table_search::table_search( const method &meth, const vector<change> &calls,
 table_search::table_search( const method &meth, const vector<change> &calls,
                             bool set_nr )
   : meth( meth ), calls( calls ),
+    lenrange( make_pair( size_t(0), size_t(-1) ) ),
     f( set_nr ? ignore_rotations : no_flags )
 {}
 
 table_search::table_search( const method &meth, const vector<change> &calls,
                             pair< size_t, size_t > lenrange, bool set_nr )
   : meth( meth ), calls( calls ),
-    lenrange( range_div( lenrange, f & length_in_changes
-                                     ? partends.size() * meth.length() : 1) ),
+    lenrange( lenrange ),
     f( set_nr ? ignore_rotations : no_flags )
 {
   DEBUG( "Length range set to " << lenrange.first << "-" << lenrange.second 
-- 
2.43.0


From 7169ef718a5994aafbe575a329dd7629060854bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 25/90] fix: searches listed some rotations of touches twice
 and missed others

---
 ringing/basic_search.cpp | 16 ++++++----------
 ringing/table_search.cpp | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 2d466fa..d89dc6d 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -133,7 +133,6 @@ private:
   void output_touches( outputer &output, size_t cur )
   {
     size_t len( calls.size() );
-    size_t parts( len % cur ? cur : len / cur );
     list< touch_child_list::entry > &ch = tl->children();
 
     ch.clear();
@@ -144,7 +143,7 @@ private:
     force_halt = output( t );
 
     if ( ! ignore_rotations )
-      for ( size_t start = 1; !force_halt && start < len / parts; ++start )
+      for ( size_t start = 1; !force_halt && start < cur; ++start )
 	{
 	  // Try all of it's distinguishable rotations.
 	  ch.splice( ch.end(), ch, ch.begin() );
@@ -172,14 +171,11 @@ private:
   }
 
   // ... and this function checks that a touch fragment for which 
-  // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  // is_possibly_canonical() returns true is a canonical complete touch,
+  // namely that it is a whole number of repeats of its first CUR calls.
+  bool is_really_canonical( size_t cur )
   {
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    return calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -193,7 +189,7 @@ private:
     if ( is_row_false( r ) )
       {
 	// Has it come round, and is it in it's canonical form?
-	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical() )
+	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical( cur ) )
 	  output_touches( output, cur );
 
       }
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index c58f80c..9e96e7c 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -269,8 +269,7 @@ private:
 
     // Try all of it's distinguishable rotations.
     if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
-      size_t parts( len % cur ? cur : len / cur );
-      for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
+      for ( size_t start = 1; !force_halt && start < cur; ++start ) {
         ch.splice( ch.end(), ch, ch.begin() );
         force_halt = output( t );
       }
@@ -300,18 +299,15 @@ private:
   }
 
   // ... and this function checks that a touch fragment for which 
-  // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  // is_possibly_canonical() returns true is a canonical complete touch,
+  // namely that it is a whole number of repeats of its first CUR calls.
+  bool is_really_canonical( size_t cur )
   {
     // Multipart comps are always canonical (because we don't prue rotations
     // from multi-part searches)
     if ( table.partends().size() > 1 ) return true;
 
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    return calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -335,7 +331,7 @@ private:
 	// Has it come round, and is it in it's canonical form?
 	if ( depth >= lenrange.first 
              && ( (f & non_round_blocks) || r.isrounds() ) 
-             && is_really_canonical() )
+             && is_really_canonical( cur ) )
 	  output_touch( output, cur );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From da5a225a0a7d042653ff73c6c4c838ea765cf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 26/90] fix: multi-part searches ignored odd part ends and ones
 that move the treble

---
 ringing/table_search.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 9e96e7c..0f30461 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -155,6 +155,13 @@ private:
         return false;
       }
 
+    for ( group::const_iterator i( s->partends.begin() ), 
+            e( s->partends.end() ); i != e; ++i )
+      if ( i->sign() == -1 ) {
+        DEBUG( "Part end is out-of-course" );
+        return false;
+      }
+
     DEBUG( "All lead heads are in-course" );
     return true;
   }
@@ -168,6 +175,11 @@ private:
       if ( !s->calls[i].findplace(0) )
 	return false;
 
+    for ( group::const_iterator i( s->partends.begin() ), 
+            e( s->partends.end() ); i != e; ++i )
+      if ( i->bells() && (*i)[0] != 0 )
+        return false;
+
     return true;
   }
 
-- 
2.43.0


From 79f6969d01f0700ba5945ef6fd6e4390b25696e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 27/90] fix: multi-part searches listed touches with a lead
 false against itself in another part

---
 ringing/table_search.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 0f30461..dc42270 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -215,6 +215,8 @@ private:
 
       DEBUG( "FLH: " << *i );
       falsenesses.push_back( table.compute_post_mult( *i ) );
+      if ( !i->isrounds() && table.partends().size() > 1 )
+        part_falsenesses.push_back( falsenesses.back() );
     }
   }
 
@@ -255,6 +257,12 @@ private:
       if ( leads[ (r * *i).index() ] )
 	return true;
 
+    // Is it false against the same lead in another part?
+    for ( vector< post_col_t >::const_iterator i( part_falsenesses.begin() ); 
+	  i != part_falsenesses.end(); ++i )
+      if ( r * *i == r )
+	return true;
+
     return false;
   }
 
@@ -382,6 +390,7 @@ private:
   lead_vector_t leads;			// The leads had so far
   vector< post_col_t > call_lhs;	// The effect of each call (inc. Pl.)
   vector< post_col_t > falsenesses;	// The falsenesses of the method
+  vector< post_col_t > part_falsenesses; // The ones other than rounds
 };
 
 search_base::context_base *table_search::new_context() const 
-- 
2.43.0


From 86c50601478c8edbcb5f74f157fe8dcce10410ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 28/90] fix: searches for blocks that do not come round listed
 false blocks and missed true ones

---
 ringing/table_search.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index dc42270..f32bd09 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -288,7 +288,8 @@ private:
     force_halt = output( t );
 
     // Try all of it's distinguishable rotations.
-    if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
+    if ( !(f & (ignore_rotations|non_round_blocks)) 
+         && table.partends().size() == 1 ) {
       for ( size_t start = 1; !force_halt && start < cur; ++start ) {
         ch.splice( ch.end(), ch, ch.begin() );
         force_halt = output( t );
@@ -306,8 +307,9 @@ private:
     if ( calls.empty() )
       return true;
 
-    // Multipart comps are always canonical 
-    if ( table.partends().size() > 1 ) return true;
+    // Multipart comps are always canonical, and rotations of a block that
+    // does not come round are different (and possibly false) blocks. 
+    if ( table.partends().size() > 1 || (f & non_round_blocks) ) return true;
 
     if ( cur == 0 || calls.back() > calls[ calls.size() - 1 - cur ] )
       cur = calls.size();
@@ -325,7 +327,7 @@ private:
   {
     // Multipart comps are always canonical (because we don't prue rotations
     // from multi-part searches)
-    if ( table.partends().size() > 1 ) return true;
+    if ( table.partends().size() > 1 || (f & non_round_blocks) ) return true;
 
     return calls.size() % cur == 0;
   }
-- 
2.43.0


From 18b43adf76c9c76f2672e5a1bd0a4c6d7b5e5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 29/90] fix: the basic search missed falseness in methods
 without a fixed treble

---
 ringing/basic_search.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index d89dc6d..1d7271f 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -80,6 +80,13 @@ public:
 private:
   void init_falseness( const method &meth )
   {
+    // The falsenesses which move the treble only matter if it can be moved
+    int ft_flags = 0;
+    for ( vector< row >::const_iterator i( call_lhs.begin() ); 
+	  i != call_lhs.end(); ++i )
+      if ( (*i)[0] != 0 ) 
+        ft_flags = falseness_table::no_fixed_treble;
+
     for ( vector< row >::const_iterator i( call_lhs.begin() ); 
 	  i != call_lhs.end(); ++i )
       {
@@ -87,13 +94,14 @@ private:
 	  {
 	    // At least one odd parity call, so we must consider 
 	    // out-of-course falsenesses
-	    falsenesses = falseness_table( meth );
+	    falsenesses = falseness_table( meth, ft_flags );
 	    return;
 	  }
       }
 
     // All calls have even parity so we can exclude out-of-course falsenesses
-    falsenesses = falseness_table( meth, falseness_table::in_course_only );
+    falsenesses = falseness_table( meth, ft_flags 
+                                   | falseness_table::in_course_only );
   }
 
   void init_call( const row &le, const change &ch )
-- 
2.43.0


From 9e986d19892f7a9beb2dfa8e341dfbdc1cdfc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 30/90] fix: touchsearch -g wrote a comma before the first
 lead, which gsiril refuses

---
 apps/touchsearch/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index 00392d3..33a9279 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -85,7 +85,7 @@ public:
       = dynamic_cast<touch_child_list const*>( t.get_head() );
     assert( tl );
      
-    size_t len = 0;   row r(args.bells);
+    size_t len = 0;   row r(args.bells);   bool first = true;
     do for ( list<touch_child_list::entry>::const_iterator
                i = tl->children().begin(), e = tl->children().end();  
                i != e;  ++i ) 
@@ -100,7 +100,8 @@ public:
         size_t cn = find( args.calls.begin(), args.calls.end(), c ) 
             - args.calls.begin();
 
-        if ( (flags & comma_separate) && len != 0 ) cout << ',';
+        if ( (flags & comma_separate) && !first ) cout << ',';
+        first = false;
         if ( cn < args.calls.size() ) cout << args.call_strs[cn];
         else cout << args.plain_name;
       }
-- 
2.43.0


From 91541d87839f1f514c16b27d336e77644aea7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 31/90] fix: searches listed false touches of methods whose
 leads are false

---
 ringing/basic_search.cpp | 14 +++++++++++++-
 ringing/table_search.cpp |  9 +++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 1d7271f..d6bde81 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -57,7 +57,7 @@ class basic_search::context : public search_base::context_base
 {
 public:
   context( const basic_search *s ) 
-    : lenrange( s->lenrange ),
+    : lenrange( s->lenrange ), impossible( false ),
       ignore_rotations( s->ignore_rotations )
   {
     row le; 
@@ -80,6 +80,14 @@ public:
 private:
   void init_falseness( const method &meth )
   {
+    // If a lead is false against itself, there are no true touches.
+    set< row > rows;  row r( meth.bells() );
+    for ( method::const_iterator i( meth.begin() ); i != meth.end(); ++i ) {
+      if ( !rows.insert( r ).second )
+        impossible = true;
+      r *= *i;
+    }
+
     // The falsenesses which move the treble only matter if it can be moved
     int ft_flags = 0;
     for ( vector< row >::const_iterator i( call_lhs.begin() ); 
@@ -122,6 +130,9 @@ private:
   // Keep looking for touches, pushing them down the outputer.
   virtual void run( outputer &output ) 
   {
+    if ( impossible ) 
+      return;
+
     force_halt = false;
     leads.clear();
     run_recursive( output, row( call_lhs.front().bells() ), 0, 0 );
@@ -221,6 +232,7 @@ private:
   // Data members
   pair< size_t, size_t > lenrange;	// The min & max lengths (in leads)
   bool force_halt;			// Are we terminating the search?
+  bool impossible;			// Whether the search cannot succeed
   vector< size_t > calls;		// The calls we've had so far
   touch t;				// The current touch
   touch_child_list *tl;
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index f32bd09..eb60beb 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -30,6 +30,7 @@
 #else
 #include <vector>
 #endif
+#include <set>
 #include <ringing/search_base.h>
 #include <ringing/table_search.h>
 #include <ringing/falseness.h>
@@ -199,6 +200,14 @@ private:
 
   void init_falseness( const method &meth, int ft_flags )
   {
+    // If a lead is false against itself, there are no true touches.
+    set< row > rows;  row r( meth.bells() );
+    for ( method::const_iterator i( meth.begin() ); i != meth.end(); ++i ) {
+      if ( !rows.insert( r ).second )
+        impossible = true;
+      r *= *i;
+    }
+
     falseness_table ft( meth, ft_flags );
     
     for ( falseness_table::const_iterator i( ft.begin() ); i != ft.end(); ++i )
-- 
2.43.0


From bb271c2d53ef46f493a557e6722bb747987932cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 32/90] fix: touchsearch -a lost touches when every lead end
 change is odd

---
 apps/touchsearch/join_plan_search.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 7d97638..85cbb0e 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -113,6 +113,11 @@ private:
         return false;
       }
 
+    if ( psign == -1 ) {
+      DEBUG( "Lead ends are out-of-course" );
+      return false;
+    }
+
     DEBUG( "Lead heads are all in-course" );
     return true;
   }
-- 
2.43.0


From 525985c51f19bb181edc6d85da776f4bced3bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 33/90] fix: a byte-order mark became part of the first method
 of a library file

---
 ringing/litelib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8ed37b6..8a11c41 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -215,6 +215,7 @@ library_base::const_iterator litelib::impl::begin() const
   if (f_owner) {
     f_owner->clear();
     f_owner->seekg(0, ios::beg);
+    const_cast< litelib::impl * >(this)->skip_bom();
   }
   return const_iterator(const_cast< litelib::impl * >(this),
                         new entry_type(b, flags));
-- 
2.43.0


From a17e038bdf79b584f6b0a3ce812001525fb3af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 34/90] fix: blank lines ending in a carriage return were taken
 for methods

---
 ringing/litelib.cpp | 2 +-
 ringing/mslib.cpp   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8a11c41..764a12b 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -183,7 +183,7 @@ bool litelib::impl::entry_type::readentry( library_base &lb )
     getline( ifs, linebuf );
 
     if (ifs) {
-      linestart = linebuf.find_first_not_of(" \t");
+      linestart = linebuf.find_first_not_of(" \t\r");
       if (linestart != string::npos) {
         int line_bells = read_bells();
         if (req_bells == 0 && line_bells) {
diff --git a/ringing/mslib.cpp b/ringing/mslib.cpp
index d332c53..4377ec3 100644
--- a/ringing/mslib.cpp
+++ b/ringing/mslib.cpp
@@ -130,6 +130,8 @@ bool mslib::impl::entry_type::readentry( library_base &lb )
   while ( ifs )
     {
       getline( ifs, linebuf );
+      if ( linebuf.length() > 0 && linebuf[linebuf.length()-1] == '\r' )
+	linebuf.erase( linebuf.length()-1 );
 
       if ( linebuf.length() > 0 && linebuf[0] == '*' )
 	{
-- 
2.43.0


From 24cc7dc755ef52c4630dd844c4db651c4f228251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 35/90] fix: the name of a method in a library kept part of its
 class, or crashed

---
 ringing/litelib.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 764a12b..0c5d75d 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -135,13 +135,14 @@ string litelib::impl::entry_type::name() const
 static void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
 static bool remove_suffix( string& n, string const& suffix )
 {
-  string::size_type i = n.find(suffix);
+  if ( suffix.empty() ) return false;
+  string::size_type i = n.rfind(suffix);
   if ( i != string::npos && i == n.length() - suffix.length() ) {
     n.erase(i); trim_trailing_whitespace(n);
     return true;
@@ -153,7 +154,10 @@ string litelib::impl::entry_type::base_name() const
 {
   string n = name();
   if ( remove_suffix( n, method::stagename(b) ) ) {
-    bool had_class = false;
+    // Treble Bob and Treble Place end in the names of other classes
+    bool had_class
+      =  remove_suffix( n, method::classname( method::M_TREBLE_BOB ) )
+      || remove_suffix( n, method::classname( method::M_TREBLE_PLACE ) );
     for ( method::m_class c = method::M_BOB; 
             c <= method::M_SLOW_COURSE && !had_class;  
             c = (method::m_class)( (int)c + 1 ) )
-- 
2.43.0


From e84d066d78c40288fd484328b65b04134ec7a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 36/90] fix: hand bell peals and the numbers of long named
 methods were lost from CC libraries

---
 ringing/cclib.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 3c1ed92..62c5861 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -413,7 +413,7 @@ bool cclib::impl::entry_type::has_facet( const library_facet_id& id ) const
     return tower_date != string::npos && bool( get_facet( id ) );
   
   else if ( id == first_hand_peal::id ) 
-    return tower_end != string::npos && bool( get_facet( id ) );
+    return hand_date != string::npos && bool( get_facet( id ) );
 
   else if ( id == rw_ref::id ) 
     return rw_start != string::npos && bool( get_facet( id ) );
@@ -431,7 +431,8 @@ cclib::impl::entry_type::get_facet( const library_facet_id& id ) const
   shared_pointer< library_facet_base > result;
 
   if ( id == cclib::ref::id ) 
-    result.reset( new cclib::ref( atoi( linebuf.c_str() ) ) );
+    result.reset( new cclib::ref( atoi( wrapped_name.empty() 
+      ? linebuf.c_str() : wrapped_name.c_str() ) ) );
 
   else if ( id == first_tower_peal::id ) {
     peal p( read_peal( tower_date, tower_place, tower_end ) );
-- 
2.43.0


From 39eb7bd858c8580334f3da914a5560085aa7f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 37/90] fix: the class was repeated in the titles of methods
 from CC libraries

---
 ringing/cclib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 62c5861..d395d0c 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -267,8 +267,8 @@ void cclib::impl::entry_type::parse_title()
     main_class = method::M_TREBLE_BOB;
   else {
     main_class = method::M_UNKNOWN;
-    plain = true;
   }
+  plain = main_class == method::M_UNKNOWN;
 
   // Read the stage name
   for ( int i=3; i<=22; ++i )
@@ -504,6 +504,9 @@ string cclib::impl::entry_type::base_name() const
       maybe_strip_class( newname, method::classname( method::M_PLACE ) ) ||
       maybe_strip_class( newname, method::classname( method::M_SLOW_COURSE  ) );
   
+  if(main_class)
+    maybe_strip_class( newname, method::classname( main_class ) );
+
   if(little)
     maybe_strip_class( newname, method::classname( method::M_LITTLE       ) );
 
-- 
2.43.0


From b2fadbc2fa807b86ffbf623c8e76e5accdcfab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 38/90] fix: XML libraries lost the peals and references of
 methods

---
 ringing/xmllib.cpp | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 383033d..71831b5 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -104,6 +104,7 @@ class xmllib::impl::entry_type : public library_entry::impl
     next_sibling_element( dom_element start, const string& name) const;
   string get_field( dom_element const& parent, const string& elt_name ) const;
   string extract_text( const dom_element& e ) const;
+  dom_element find_peal( const string& elt_name ) const;
   peal get_peal( const string& elt_name ) const;
   string facet_elt( const library_facet_id& id ) const;
 
@@ -146,9 +147,24 @@ string xmllib::impl::entry_type::get_field( dom_element const& parent,
     return string();
 }
 
+// Peals are usually listed in a <performances/> element; the older form has 
+// <first-tower/> and <first-hand/> directly in the <method/> element.
+dom_element xmllib::impl::entry_type::find_peal( const string& name ) const
+{
+  dom_element p = next_sibling_element( meth.get_first_child(), 
+                                        "performances" );
+  if (p) {
+    string n(name);
+    if ( n.find('-') != string::npos ) n.erase( n.find('-'), 1 );
+    p = next_sibling_element( p.get_first_child(), n );
+  }
+  if (!p) p = next_sibling_element( meth.get_first_child(), name );
+  return p;
+}
+
 peal xmllib::impl::entry_type::get_peal( const string& name ) const
 {
-  dom_element e = next_sibling_element( meth.get_first_child(), name );
+  dom_element e = find_peal( name );
   if (!e) return peal();
 
   peal::date dt;
@@ -158,8 +174,11 @@ peal xmllib::impl::entry_type::get_peal( const string& name ) const
 
   string loc;
 
-  dom_element l = next_sibling_element( meth.get_first_child(), "location" );
-  if ( l ) {
+  dom_element l = next_sibling_element( e.get_first_child(), "location" );
+  // xmlout doesn't divide a location into its parts
+  if ( l && !l.get_first_child() ) 
+    loc = extract_text( l );
+  else if ( l ) {
     // TODO: The peal object should know about the different 
     // parts of a location
     string tmp;
@@ -309,6 +328,7 @@ bool xmllib::impl::entry_type::readentry( library_base& lb )
   else if (cc_xml) {
     methset = next_sibling_element( doc->get_document().get_first_child(),
                                     "methodSet" );
+    if (!methset) return false;
     meth = methset.get_first_child();
   }
   else
@@ -341,9 +361,9 @@ bool xmllib::impl::entry_type::has_facet( const library_facet_id& id ) const
 {
   string elt( facet_elt(id) );
   if (elt.size())
-    return next_sibling_element( meth.get_first_child(), elt );
+    return find_peal(elt);
   else 
-    return false;
+    return bool( get_facet(id) );
 }
 
 shared_pointer< library_facet_base >
@@ -353,8 +373,21 @@ xmllib::impl::entry_type::get_facet( const library_facet_id& id ) const
   string elt( facet_elt(id) );
 
   if (elt.size()) {
-    if ( next_sibling_element( meth.get_first_child(), elt ) ) 
+    if ( !find_peal(elt) )
+      ;
+    else if ( id == first_tower_peal::id )
       result.reset( new first_tower_peal( get_peal(elt) ) );
+    else
+      result.reset( new first_hand_peal( get_peal(elt) ) );
+  }
+  else if ( id == rw_ref::id || id == cc_collection_id::id ) {
+    dom_element refs = next_sibling_element( meth.get_first_child(), "refs" );
+    bool rw = id == rw_ref::id;
+    string ref( get_field( refs, rw ? "rwref" : "ccc" ) );
+    if ( ref.size() ) {
+      if (rw) result.reset( new rw_ref(ref) );
+      else result.reset( new cc_collection_id(ref) );
+    }
   }
 
   return result;
-- 
2.43.0


From 14148fbae962b1462b80436aa943409aba59b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 39/90] fix: names of hybrids from CC libraries ended in a
 space

---
 ringing/cclib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index d395d0c..acd68f6 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -396,7 +396,8 @@ string cclib::impl::entry_type::name() const
                    == string::npos )
     n.append(" " + method::classname( method::M_DIFFERENTIAL ));
   string cl(" "); cl.append( method::classname(main_class) );
-  if (main_class && n.find(cl) == string::npos )
+  // Hybrid is not part of the title
+  if (cl.size() > 1 && n.find(cl) == string::npos )
     n.append(cl);
   if (block && n.find(" Block") == string::npos )
     n.append(" Block");
-- 
2.43.0


From 3bb97341af73ce7638bff2d5ada7d24b35d747b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 40/90] fix: row expressions lost products of nested sets and
 of sets of conjugates

---
 apps/utils/row_calc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 19dc0f6..025dfaf 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -288,7 +288,7 @@ public:
   {}
 
 private:
-  virtual void restart() { lhs.restart(); }
+  virtual void restart() { lhs.restart(); rhs.restart(); }
   virtual int count_vectors() const 
     { return lhs.count_vectors() + rhs.count_vectors(); }
   virtual bool reads_stdin() const 
@@ -345,7 +345,12 @@ public:
   set_node( list<row_calc::expr> const& l ) : l(l), started(false) {}
 
 private:
-  virtual void restart() { started = false; }
+  virtual void restart()
+  {
+    for ( list<row_calc::expr>::iterator it=l.begin(); it!=l.end(); ++it ) 
+      it->restart();
+    started = false;
+  }
   virtual int count_vectors() const
   {
     int v = 1;
-- 
2.43.0


From ee57f018e40909765674d44ab7f18f5b033f0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 41/90] fix: an empty difference of two rows emptied the whole
 row expression

---
 apps/utils/row_calc.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 025dfaf..07a54a6 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -222,14 +222,12 @@ private:
   virtual row evaluate() {
     if (!started) {
       exclude.clear();
-      if (rhs.count_vectors()) 
-        try {
-          while (true) 
-            exclude.insert( rhs.evaluate() ); 
-        } 
-        catch (vector_end) {}
-      else
-        exclude.insert( rhs.evaluate() );
+      try {
+        do 
+          exclude.insert( rhs.evaluate() ); 
+        while ( rhs.count_vectors() );
+      } 
+      catch (vector_end) {}
       started = true;
     }
 
@@ -381,14 +379,13 @@ private:
     } 
  
     while ( i != l.end() ) {
-      if (i->count_vectors()) 
-        try {
-          return i->evaluate();
-        } catch (vector_end) {
-          ++i;
-        }
-      else 
-        return i++->evaluate();
+      list<row_calc::expr>::iterator const cur = i;
+      if (!cur->count_vectors()) ++i;
+      try {
+        return cur->evaluate();
+      } catch (vector_end) {
+        if (cur->count_vectors()) ++i;
+      }
     }
 
     throw vector_end();
-- 
2.43.0


From f47c33dedc5c3b3dc6fc5bd5968678c8117eedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 42/90] fix: negative powers in row expressions were refused

---
 apps/utils/row_calc.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 07a54a6..58e69d5 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -801,7 +801,15 @@ row_calc::expr rc_parser::parse_expr( iter_t first, iter_t last )
   iter_t split;
   tok_types::enum_t setdiff[1]
     = { tok_types::minus };
-  if ( find_last( first, last, setdiff, split ) ) 
+  iter_t diff_last = last;
+  bool is_setdiff = find_last( first, diff_last, setdiff, split );
+  // A minus directly after a power is the sign of the exponent
+  while ( is_setdiff && split != first
+          && (split-1)->type() == tok_types::power ) {
+    diff_last = split;
+    is_setdiff = find_last( first, diff_last, setdiff, split );
+  }
+  if ( is_setdiff ) 
     {
       check_binary_expr( first, split, last, string(1, (char)split->type()) );
      
-- 
2.43.0


From 96e3143588b081316c0356905216785e1b1ee2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 43/90] fix: rowcalc crashed when a file in an expression could
 not be read

---
 apps/rowcalc/rowcalc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/rowcalc/rowcalc.cpp b/apps/rowcalc/rowcalc.cpp
index 95c5cef..8ba0eed 100644
--- a/apps/rowcalc/rowcalc.cpp
+++ b/apps/rowcalc/rowcalc.cpp
@@ -146,6 +146,10 @@ bool evaluate_expr( arguments const& args, string const& expr )
     cerr << "Invalid row produced: " << ex.what() << "\n";
     return false;
   }
+  catch ( exception const& ex ) {
+    cerr << "Error evaluating expression: " << ex.what() << "\n";
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From a7c09ca989e72b6624974db7667c8610080aed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 44/90] fix: the last row of a file was refused if no newline
 followed it

---
 apps/utils/row_calc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 58e69d5..dc546e0 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -517,7 +517,8 @@ private:
     if ( !*in || in->peek() == EOF ) throw vector_end();
 
     string r;
-    while ( *in && !strchr( seps, in->peek() ) ) r += (char)in->get(); 
+    while ( *in && in->peek() != EOF && !strchr( seps, in->peek() ) )
+      r += (char)in->get(); 
     return row(r);
   }
 
-- 
2.43.0


From 810ccd00c44325f57a78687119f5c9d65d59c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 45/90] fix: row expressions took a file not yet opened for
 standard input

---
 apps/utils/row_calc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index dc546e0..7fba5ab 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -480,7 +480,7 @@ public:
 
 private:
   virtual int count_vectors() const { return 1; }
-  virtual bool reads_stdin() const { return !in_owner; }
+  virtual bool reads_stdin() const { return file == "-"; }
 
   virtual void restart() { 
     if (reads_stdin()) 
-- 
2.43.0


From 0172d2c9884c05ae4ad7aac5cb7b7c4af1ba3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 46/90] fix: 10 - 3 - 2 was 10 - (3 - 2), and 12 / 3 * 4 was 12
 / (3 * 4), in gsiril

---
 apps/gsiril/parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 3414319..b2af014 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -839,7 +839,8 @@ msparser::make_expr( vector< token >::const_iterator first,
   vector<tok_types::enum_t> addops;
   addops.push_back( tok_types::plus );
   addops.push_back( tok_types::minus );
-  if ( find_one_of( first, last, addops, split ) ) {
+  // Splitting at the last of them makes them left associative.
+  if ( find_one_of( first, last, addops, split, find_last ) ) {
     if ( split->type() == tok_types::plus ) {
       check_bin_op( first, split, last, "+" );
       return expression( new add_node( make_expr( first, split ),
@@ -857,7 +858,7 @@ msparser::make_expr( vector< token >::const_iterator first,
   multops.push_back( tok_types::append );
   multops.push_back( tok_types::divide );
   multops.push_back( tok_types::modulo );
-  if ( find_one_of( first, last, multops, split ) ) {
+  if ( find_one_of( first, last, multops, split, find_last ) ) {
     switch ( split->type() ) {
       case tok_types::modulo:
         check_bin_op( first, split, last, "%" );
-- 
2.43.0


From 262ac75e6d19be15186f20e0714c4a399a324c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 47/90] fix: gsiril's 'X to Y rows' statement was refused

---
 apps/gsiril/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index b2af014..91c7d3b 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -401,7 +401,7 @@ statement msparser::parse_command( vector<token> const& cmd ) {
        && cmd[2].type() == tok_types::num_lit
        && cmd[3].type() == tok_types::name && cmd[3] == "rows" )
     return statement( new rows_stmt( string_to_int(cmd[0]),
-                                     string_to_int(cmd[1]) ) );
+                                     string_to_int(cmd[2]) ) );
 
   // Rounds directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::name 
-- 
2.43.0


From 58754c564cf42c32e46446e04b6fe2f3cd2cd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 48/90] fix: gsiril's crus function matched runs

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 608c858..6792e10 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -258,7 +258,7 @@ void register_functions( execution_context& ectx )
   ectx.define_symbol( pair< const string, expression >
     ( "backruns", expression( new runs_impl( music::at_back ) ) ) );
   ectx.define_symbol( pair< const string, expression >
-    ( "crus", expression( new runs_impl ) ) );
+    ( "crus", expression( new crus_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
     ( "methname", expression( new methname_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
-- 
2.43.0


From 440327b296a995cc90a3d664224230e3ffd8e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 49/90] fix: gsiril's at function refused the last place

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 6792e10..f7038b6 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -46,7 +46,7 @@ class at_fn_impl : public fnnode {
     if (args.size() != 1)
       throw runtime_error("The at function takes one argument");
     int idx = args[0].int_evaluate(ctx);
-    if (idx < 1 || idx >= ctx.bells())
+    if (idx < 1 || idx > ctx.bells())
       throw runtime_error("Argument out of range in at function");
     row const& r = ctx.current_row();
     int rv = idx > r.bells() ? idx : r[idx-1]+1;
-- 
2.43.0


From e3c9ba538296611e3900bdd640d8de522f5df2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 50/90] fix: gsiril's pos function made up places for bells
 that do not exist

---
 apps/gsiril/functions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index f7038b6..3cb3e67 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -63,7 +63,10 @@ class pos_fn_impl : public fnnode {
                            vector<expression> const& args ) const {
     if (args.size() != 1)
       throw runtime_error("The pos function takes one argument");
-    int rv = ctx.current_row().find(args[0].int_evaluate(ctx) - 1) + 1;
+    RINGING_LLONG b = args[0].int_evaluate(ctx);
+    if (b < 1 || b > (int) bell::MAX_BELLS)
+      throw runtime_error("Argument out of range in pos function");
+    int rv = ctx.current_row().find(b - 1) + 1;
     return expression( new integer_node(rv) );
   }
 
-- 
2.43.0


From 330e4a1ca900b9bb40b4aa1a535f83410edb5d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 51/90] fix: gsiril crashed on division by zero

---
 apps/gsiril/expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index b6e4236..beab786 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -819,6 +819,8 @@ void mod_node::debug_print( ostream &os ) const
 RINGING_LLONG mod_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if (r == 0) throw runtime_error("Division by zero");
+  if (r == -1) return 0;  // the minimum integer overflows
   return l % r;
 }
 
@@ -832,6 +834,7 @@ void div_node::debug_print( ostream &os ) const
 RINGING_LLONG div_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if (r == 0) throw runtime_error("Division by zero");
   return l / r;
 }
 
-- 
2.43.0


From d1080b8eb587e0c9001c403a655086092e369bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 52/90] fix: gsiril counted every node twice and ignored odd
 node limits

---
 apps/gsiril/execution_context.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index c10ec4d..715d864 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -148,7 +148,6 @@ bool execution_context::define_symbol( const pair< const string, expression > &d
 
 void execution_context::increment_node_count() const
 {
-  ++node_count;
   if (++node_count == args.node_limit)
     throw runtime_error("Node count exceeded");
 }
-- 
2.43.0


From 51bf6f4ba64c9e5d5e39bd69ed44263d604abd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 53/90] fix: gsiril gave an error for touches outside a length
 range open at one end

---
 apps/gsiril/execution_context.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 715d864..910ee7d 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -71,18 +71,19 @@ execution_context::expected_length( pair<size_t, size_t> l )
 { 
   // Define min_length and max_length so they can be referenced by 
   // tooshort and toolong, respectively.
-  if (l.first && l.second) {
+  if (l.first)
     sym_table.define
       ( pair<const string, expression>( "min_length", 
           expression( new integer_node(l.first) ) ) );
+  else
+    sym_table.undefine("min_length");
+
+  if (l.second)
     sym_table.define
       ( pair<const string, expression>( "max_length", 
           expression( new integer_node(l.second) ) ) );
-  }
-  else {
-    sym_table.undefine("min_length");
+  else
     sym_table.undefine("max_length");
-  }
 
   swap( l, args.expected_length ); 
   return l;
-- 
2.43.0


From c65dc9d0650c8777b0547f36e594d9dad32cb0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 54/90] fix: gsiril crashed on an 'end' inside an if or foreach
 statement

---
 apps/gsiril/parser.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 91c7d3b..d414921 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -259,6 +259,7 @@ private:
   vector< token > tokenise_command();
 
   statement parse_command( vector<token> const& cmd );
+  statement parse_body_command( vector<token> const& cmd );
   statement parse_if( expression const& cond );
   statement parse_foreach( vector<token> const& cmd );
 
@@ -472,6 +473,14 @@ statement msparser::parse_command( vector<token> const& cmd ) {
   throw runtime_error( "Unknown command: " + cmd[0] + " ..." );
 }
 
+// The body of an if or foreach statement cannot contain the end of the input
+statement msparser::parse_body_command( vector<token> const& cmd ) {
+  statement s( parse_command(cmd) );
+  if ( s.eof() )
+    throw runtime_error( "Unexpected '" + cmd[0] + "' in statement body" );
+  return s;
+}
+
 statement msparser::parse_if( expression const& cond1 ) {
   scoped_pointer<if_stmt> stmt( new if_stmt );
   expression cond(cond1);
@@ -511,7 +520,7 @@ statement msparser::parse_if( expression const& cond1 ) {
       had_else = true;
     }
 
-    else block->push( parse_command(cmd) );
+    else block->push( parse_body_command(cmd) );
   }
 }
 
@@ -557,7 +566,7 @@ statement msparser::parse_foreach( vector<token> const& cmd ) {
       return statement
         ( new foreach_stmt(name, array, statement(block.release()) ) );
 
-    else block->push( parse_command(cmd2) );
+    else block->push( parse_body_command(cmd2) );
   }
 }
 
-- 
2.43.0


From dc47e64d9bb8f2466885785e5e7fad501acefa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 55/90] fix: a gsiril rounds statement on too few bells made
 every touch not round

---
 apps/gsiril/execution_context.cpp | 9 +++++++++
 apps/gsiril/execution_context.h   | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 910ee7d..8221973 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -48,6 +48,15 @@ int execution_context::bells( int b )
   return b;
 }
 
+row execution_context::rounds( row r )
+{
+  // Unmentioned bells are in their usual places
+  if ( r.bells() < args.bells ) r *= row( args.bells );
+
+  swap( r, args.rounds );
+  return r;
+}
+
 void execution_context::row_mask(music_details const& m) { 
   rmask = m; 
   define_line();
diff --git a/apps/gsiril/execution_context.h b/apps/gsiril/execution_context.h
index b59db98..525d0fa 100644
--- a/apps/gsiril/execution_context.h
+++ b/apps/gsiril/execution_context.h
@@ -80,7 +80,7 @@ public:
   bool verbose( bool v ) { swap(v, args.verbose.get()); return v; }
   bool verbose() const   { return args.verbose; }
 
-  row rounds( row r ) { swap(r, args.rounds); return r; }
+  row rounds( row r );
   row rounds() const { return args.rounds; }
 
   const arguments& get_args() const { return args; }
-- 
2.43.0


From f2838e4a65af5f8de5ae3e793cfd205a1b249140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 56/90] fix: gsiril echo statements gave output when run with
 -qq

---
 apps/gsiril/statement.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/gsiril/statement.cpp b/apps/gsiril/statement.cpp
index 32b8b5e..bb9fdf5 100644
--- a/apps/gsiril/statement.cpp
+++ b/apps/gsiril/statement.cpp
@@ -265,9 +265,11 @@ void echo_stmt::execute( execution_context& e )
   bool no_nl = false;
   string str( expr.string_evaluate(p, &no_nl) );
 
-  ostream& os = mode == echo ? e.output() : cerr;
-  os << str;
-  if (!no_nl) os << '\n';
+  if ( e.get_args().quiet < 2 || mode != echo ) {
+    ostream& os = mode == echo ? e.output() : cerr;
+    os << str;
+    if (!no_nl) os << '\n';
+  }
 
   if ( mode == error ) {
     if ( e.interactive() ) e.set_failure();
-- 
2.43.0


From 8a6eb51967e23c828a746ddb7d00192b2f4a2c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 57/90] fix: methsearch did not check changes that follow by
 symmetry

A change found by reflecting or rotating earlier ones was added without
looking at the mask, --prefix, --changes, -3rds/4ths place delight, or at
repeated changes and blows across the point of symmetry.
---
 apps/methsearch/search.cpp | 149 ++++++++++++++++++++++---------------
 1 file changed, 91 insertions(+), 58 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 9a5b083..147b263 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -72,6 +72,7 @@ private:
   void general_recurse();
 
   inline bool push_change( const change& ch);
+  inline bool push_sym_change( const change& ch);
   inline void pop_change( row const* r_old = NULL );
   inline void call_recurse( const change &ch );
   inline int get_posn() const;
@@ -91,6 +92,8 @@ private:
   bool try_halflead_sym_change( const change &ch );
   bool try_midlead_change( const change &ch );
   bool try_quarterlead_change( const change &ch );
+  bool try_sym_change( const change &ch );
+  bool is_class_acceptable( const change &ch );
   bool try_offset_start_change( const change &ch);
   bool try_with_limited_le( const change& ch );
   bool try_floating_symmetry();
@@ -633,6 +636,12 @@ inline bool searcher::push_change( const change& ch )
   return true;
 }
 
+// Add a change that is determined by the method's symmetry
+inline bool searcher::push_sym_change( const change& ch )
+{
+  return try_sym_change( ch ) && push_change( ch );
+}
+
 inline void searcher::pop_change( row const* r_old )
 {
   m.pop_back();
@@ -896,6 +905,81 @@ bool searcher::try_leadend_sym_change( const change &ch )
   return true;
 }
 
+// Does ch have the places that the method's class requires?
+// This does not handle --delight and its historical relatives.
+bool searcher::is_class_acceptable( const change &ch )
+{
+  size_t const depth = m.size();
+  size_t const posn = args.hunt_bells ? get_posn() : 0;
+
+  // XXX ALLIANCE -- Needs fixing
+  // Is the treble moving between dodging positions (i.e. is posn odd)?
+  bool const intersection = ( args.hunt_bells && 
+                              posn % 2 == args.treble_front % 2 );
+
+  if ( !intersection || depth == lead_len-1 || depth == lead_len/2-1 )
+    return true;
+
+  if ( args.surprise && !ch.internal() )
+    return false;
+
+  if ( args.treble_bob && ch.internal() )
+    return false;
+
+  if ( args.delight3 && ( posn == 3 && !ch.internal() ||
+                          posn == 1 &&  ch.internal() ) )
+    return false;
+
+  if ( args.delight4 && ( posn == 1 && !ch.internal() ||
+                          posn == 3 &&  ch.internal() ) )
+    return false;
+
+  return true;
+}
+
+// Is ch, a change determined by the method's symmetry, one that we might 
+// have chosen here?  The mask need not have the same symmetry as the method, 
+// nor need consecutive changes either side of the point of symmetry.
+bool searcher::try_sym_change( const change &ch )
+{
+  size_t const depth = m.size();
+
+  if ( args.prefix.size() > depth && ch != args.prefix[depth] )
+    return false;
+
+  vector<change> const& allowed
+    = args.allowed_changes.at(args.hunt_bells || lead_len ? depth : depth % 2);
+  if ( !binary_search( allowed.begin(), allowed.end(), ch, compare_changes ) )
+    return false;
+
+  if ( args.true_trivial && depth && m.back() == ch )
+    return false;
+
+  if ( !is_class_acceptable( ch ) )
+    return false;
+
+  if ( args.max_consec_blows )
+    {
+      size_t stopoff = args.long_le_place 
+        ? (lead_len+sym_offset-1) % lead_len : (size_t)-1;
+
+      if ( depth != stopoff 
+           && is_too_many_places( m, ch, args.max_consec_blows, stopoff ) )
+        return false;
+    }
+
+  if ( depth == lead_len-1 )
+    {
+      if ( ! try_leadend_change( ch ) )
+        return false;
+
+      if ( !sym_offset && ! try_leadend_sym_change( ch ) )
+        return false;
+    }
+
+  return true;
+}
+
 bool searcher::try_midlead_change( const change &ch )
 {
   // Don't test falseness (except -Fn) here because it is called with from
@@ -918,20 +1002,9 @@ bool searcher::try_midlead_change( const change &ch )
       assert( lead_len % 2 == 0 );
       size_t hl_len = lead_len / 2;
 
-      if ( args.surprise && !ch.internal() )
-        return false;
-  
-      if ( args.treble_bob && ch.internal() )
-        return false;
-
-      if ( args.delight3 && ( posn == 3 && !ch.internal() ||
-                              posn == 1 &&  ch.internal() ) )
+      if ( ! is_class_acceptable(ch) )
         return false;
 
-      if ( args.delight4 && ( posn == 1 && !ch.internal() ||
-                              posn == 3 &&  ch.internal() ) )
-        return false;
-         
       // Are we at the last cross-section that is chosen independently?
       // (Cross-sections that are determined purely by copying or reflecting 
       // a previous change do not pass through this code path.)  If so, 
@@ -1232,28 +1305,6 @@ void searcher::new_midlead_change()
 
 void searcher::double_existing()
 {
-  if ( args.max_consec_blows )
-    for ( int i=0; i<bells; ++i )
-      if ( m.back().findplace(i) )
-        {
-          int count(2);
-          
-          for ( int offset = m.length()-2; 
-                offset >= 0 && count <= args.max_consec_blows + 1; 
-                --offset, ++count )
-            if ( !m[offset].findplace(i) )
-              break;
-        
-          for ( int offset = 0; 
-                offset < m.length() && count <= args.max_consec_blows + 1; 
-                ++offset, ++count )
-            if ( !m[offset].reverse().findplace(i) )
-              break;
-        
-          if ( count > args.max_consec_blows )
-            return;
-        }
-
   assert( lead_len % 2 == 0 );
   size_t hl_len = lead_len / 2;
   assert( size_t(m.length()) == hl_len );
@@ -1262,30 +1313,12 @@ void searcher::double_existing()
   // Note: this loop does not add the lead-end change
   bool ok = true;
   for ( size_t depth = m.length(); ok && depth < lead_len-1; ++depth )
-    ok = push_change( m[ depth-hl_len ].reverse() );
+    ok = push_sym_change( m[ depth-hl_len ].reverse() );
 
   change ch( m[ hl_len-1 ].reverse() );
-  
-  // Not sure if this is still necessary ...
-  if ( args.max_consec_blows )
-    for ( int i=0; ok && i<bells; ++i )
-      if ( ch.findplace(i) )
-        {
-          int count(2);
-          
-          for ( int offset = m.length()-1; offset >= 0; --offset, ++count )
-            if ( !m[offset].findplace(i) )
-              break;
 
-          for ( int offset = 0; offset < m.length(); ++offset, ++count )
-            if ( !m[offset].findplace(i) )
-              break;
-          
-          if ( count > args.max_consec_blows ) ok = false;
-        }
- 
   // This is the lead-head change 
-  if ( ok && push_change( ch ) )
+  if ( ok && push_sym_change( ch ) )
     general_recurse();
 
   while ( size_t(m.length()) > hl_len )
@@ -1400,7 +1433,7 @@ void searcher::general_recurse()
       else if ( sym_offset ) end += sym_offset;
 
       while ( ok && size_t(m.length()) < end )
-        ok = ok && push_change( m[ 2*qlead_sym_pt - m.length() 
+        ok = ok && push_sym_change( m[ 2*qlead_sym_pt - m.length() 
                                    + (has_qlead_change ? 0 : 1) ].reverse() );
 
       if (ok) general_recurse();
@@ -1424,7 +1457,7 @@ void searcher::general_recurse()
       for (method::reverse_iterator i = m.rbegin() + 1,
              e = m.rend() - (sym_offset ? 2*sym_offset-1 : 0); 
              ok && i != e; ++i)
-        ok = ok && push_change(*i);
+        ok = ok && push_sym_change(*i);
           
       if (ok) general_recurse();
 
@@ -1439,7 +1472,7 @@ void searcher::general_recurse()
       bool ok = true;
       for (method::reverse_iterator i = m.rbegin()+1, e = m.rend(); 
              ok && i!=e; ++i)
-        ok = ok && push_change(*i);
+        ok = ok && push_sym_change(*i);
 
       if (ok) general_recurse();
 
@@ -1455,7 +1488,7 @@ void searcher::general_recurse()
       bool ok = true;
       // This loop *will* add the lead end change.
       while ( ok && size_t(m.length()) < lead_len ) 
-        ok = ok && push_change( m[ 2*tqlead_sym_pt - m.length()
+        ok = ok && push_sym_change( m[ 2*tqlead_sym_pt - m.length()
                                    + (has_qlead_change ? 0 : 1) ].reverse() );
 
       if (ok) general_recurse();
-- 
2.43.0


From 2ef0e103136d9e4aa5e56409dc1baf5e12f9d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 58/90] fix: methsearch -U0 used the mask for the first change
 throughout the lead

---
 apps/methsearch/mask.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 9d95256..8e1402d 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -817,15 +817,14 @@ bool parse_mask( arguments &args )
   assert( above.size() == size_t(lead_len) );
   assert( below.size() == size_t(lead_len) );
 
+  vector<change> principle_changes[2];
   for ( int i=0; i<lead_len; ++i ) {
     // Don't recalculate for every place in a principle: this is very 
     // inefficient when doing -IAU0 -Fx type filters.
-    if (args.hunt_bells 
-         || args.allowed_changes.size() < (args.right_place ? 2 : 1)) 
-      args.allowed_changes.push_back( vector<change>() );
-    else 
-      args.allowed_changes.push_back( 
-        args.allowed_changes[args.right_place ? i%2 : 0] );
+    vector<change>& unmasked = principle_changes[args.right_place ? i%2 : 0];
+    args.allowed_changes.push_back( vector<change>() );
+    if (!args.hunt_bells && above[i].empty())
+      args.allowed_changes.back() = unmasked;
 
     vector<change>& changes_to_try = args.allowed_changes.back();
 
@@ -858,6 +857,9 @@ bool parse_mask( arguments &args )
       if ( changes_to_try.empty() )
         throw mask_error( make_string() << "No such method can exist: "
                           "There no possible changes at position " << i );
+
+      if ( !args.hunt_bells && above[i].empty() )
+        unmasked = changes_to_try;
     }
   }
   return true;
-- 
2.43.0


From 96df15ebd9333a59522bde12141b9ed45201bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 59/90] fix: methsearch -U0 -w used the cross change even if
 --changes excluded it

---
 apps/methsearch/mask.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 8e1402d..136e8a6 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -541,7 +541,10 @@ void select_changes_prin( const arguments& args, vector<change>& changes,
 {
   if ( args.right_place && args.bells % 2 == 0 && i % 2 == 0 ) {
     // Handle -w
-    changes.push_back( change( args.bells, "-" ) );
+    change const cross( args.bells, "-" );
+    if ( args.changes.empty() || args.include_changes
+         == ( args.changes.find(cross) != args.changes.end() ) )
+      changes.push_back( cross );
   }
 
   else {
-- 
2.43.0


From 3f9529491a158c9f8478d55804bbc40df061d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 60/90] fix: methsearch used the wrong path for multiple hunts
 with -Z

---
 apps/methsearch/mask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 136e8a6..d2cb93d 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -96,7 +96,8 @@ pair< int, int > get_posn2( const arguments &args, int depth )
   int b = posn - ( args.hunt_bells - (first_hl ? 0 : 1) ) / 2 * 2;
 
 
-  if ( a > args.bells-1 ) a = args.bells-1;
+  if ( a > args.treble_back - args.treble_front ) 
+    a = args.treble_back - args.treble_front;
   if ( b < -1 ) b = -2 - b;
 
   // Can this happen?
-- 
2.43.0


From ccf2720953c3d9a3b03fd138408134e2bd6f0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 61/90] fix: methsearch compared the wrong changes of a mask
 for symmetry

---
 apps/methsearch/mask.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index d2cb93d..a0cff4e 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -702,19 +702,20 @@ bool is_mask_consistent( arguments &args,
 {
   assert( args.lead_len );
   const int hl_len = args.lead_len / 2;
+  const int sym_offset = args.hunt_bells && args.hunt_bells % 2 == 0 
+                           ? 1 + args.treble_dodges : 0;
 
   for ( int depth=0; depth < 2*hl_len; ++depth ) {
     if ( args.skewsym ) {
       const int depth2( ( depth > hl_len ? 3 : 1 ) * hl_len
-                        - args.hunt_bells % 2 * 2 - depth );
+                        - 2 + 2*sym_offset - depth );
 
       if ( depth2 < 0 || depth2 >= hl_len*2 || depth2 == depth )
           continue;
 
       // FIXME Quarter-lead change
 
-      int other_index( ( depth > hl_len ? 3 : 1 ) * hl_len 
-                       - args.hunt_bells % 2 * 2 - depth );
+      int other_index( depth2 );
 
       const vector<change> &ch1a = above[depth];
       const vector<change> &ch1b = below[depth];
@@ -748,7 +749,7 @@ bool is_mask_consistent( arguments &args,
     }
 
     if ( args.sym ) {
-      size_t offset = (args.hunt_bells && args.hunt_bells % 2 == 0) ? 1 : 0;
+      size_t offset = sym_offset;
       if ( 2 * (hl_len - 1 + offset) - depth < 0 || 
            2 * (hl_len - 1 + offset) - depth >= 2 * hl_len )
         continue;
-- 
2.43.0


From 31377f63b9079e7527de0edde12807d2e30475e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 62/90] fix: methsearch -y failed an assertion when searching
 for principles

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 147b263..a26000c 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1080,7 +1080,7 @@ bool searcher::try_midlead_change( const change &ch )
     }
   
   // Are we more than half way through the current division? 
-  if ( args.sym_sects && !intersection && depth - div_start >= cur_div_len/2 )
+  if ( args.sym_sects && args.hunt_bells && !intersection && depth - div_start >= cur_div_len/2 )
     {
       int i = div_start + cur_div_len - 2 - (depth - div_start);
       assert( i < (int)m.size() && i >= 0 );
-- 
2.43.0


From b32b7244469c7f9156765f2ace1ad63498c3ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 63/90] fix: methsearch treated the lead end as within a
 section if the treble dodges twice

---
 apps/methsearch/search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index a26000c..c3bcc82 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -695,6 +695,10 @@ inline int searcher::get_posn() const
 
   // Reflect about the half-lead:
   size_t posn = depth >= lead_len/2 ? lead_len - depth - 2 : depth;
+
+  // The lead-end change comes between divisions
+  if ( depth == lead_len-1 ) 
+    return args.treble_front;
   
   if ( posn % div_len == div_len - 1 )
     return args.treble_front-1 + posn / div_len * 2 + 1;
-- 
2.43.0


From 4776ee07b1484c4896c12d4cf6723c2d6ed7dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 64/90] fix: methsearch --long-le-place counted the exempt
 change if it is not the lead end

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index c3bcc82..e430fc5 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -871,7 +871,7 @@ bool searcher::try_leadend_change( const change &ch )
           if (args.long_le_place && !sym_offset) count=1; 
 
           int end = m.length();
-          if (args.long_le_place && sym_offset) end = sym_offset;
+          if (args.long_le_place && sym_offset) end = sym_offset - 1;
 
           for ( int offset = 0; 
                 offset < end && count <= args.max_consec_blows; 
-- 
2.43.0


From a0ee1031445f8091a79081a6c934b4e7947bee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 65/90] fix: methsearch -E tried 12 whatever the number of hunt
 bells

---
 apps/methsearch/search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index e430fc5..e84b010 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -581,7 +581,8 @@ bool searcher::is_acceptable_method()
   // Calls back to this function, so pretty expensive
   if ( args.prefer_limited_le && !is_limited_le( m.back() ) &&
        ( try_with_limited_le( change( bells, "1"  ) ) ||
-         try_with_limited_le( change( bells, "12" ) ) ) )
+         try_with_limited_le( change( bells, string("1") 
+                                + bell( args.hunt_bells ).to_char() ) ) ) )
     return false;
 
   // Leave this one last as --requires does a fork and so is very expensive
-- 
2.43.0


From 6cac037f4a708ce6ece54feae8c84e370509877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 66/90] fix: methsearch --start-at missed methods after the
 starting point

---
 apps/methsearch/search.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index e84b010..538f4a4 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -119,7 +119,6 @@ private:
   RINGING_ULLONG search_count;
   RINGING_ULLONG node_count;
 
-  vector<change> startmeth;
   method filter_method;
   string filter_payload;
   size_t div_start;  // The index (into m) of the row of the division
@@ -142,9 +141,6 @@ searcher::searcher( arguments &args )
     args.orig_lead_len = args.lead_len;
 
   reset();
-
-  copy( args.startmeth.rbegin(), args.startmeth.rend(), 
-        back_inserter(startmeth) );
 }
 
 void searcher::init() {
@@ -1232,12 +1228,12 @@ void searcher::new_midlead_change()
   }
 
   // If we're starting at a particular point (with --start), find out
-  // what that change is.
+  // what that change is.  This only matters while the changes so far 
+  // are the same as those in the starting method.
   change first;
-  if ( startmeth.size() ) {
-    first = startmeth.back();
-    startmeth.pop_back();
-  }
+  if ( depth < args.startmeth.size() 
+       && equal( m.begin(), m.end(), args.startmeth.begin() ) )
+    first = args.startmeth[depth];
 
   for ( vector<change>::const_iterator 
           i( changes_to_try.begin() ), e( changes_to_try.end() ); 
-- 
2.43.0


From 396f5f760987e8705f03f1a2dd7365d2d03cad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 67/90] fix: methsearch -Fr applied to the lead head, which is
 not part of the lead

---
 apps/methsearch/search.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 538f4a4..0811de6 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -396,7 +396,9 @@ public:
 
   bool prove_lh( row const& lh ) {
     row const r2 = args.pends.rcoset_label(lh);
-    if ( r2 != args.start_row )
+    // The lead head isn't part of the lead, so -Fr does not apply to it.
+    if ( r2 != args.pends.rcoset_label(args.start_row)
+         && args.avoid_rows.find(r2) == args.avoid_rows.end() )
       p.add_row(r2);
     return p.truth();
   }
-- 
2.43.0


From 9ae08cbc6b6ee4bc8cb765db19306b9426298b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 68/90] fix: methsearch -Fh did not start the lead head from
 the -Fs row

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 0811de6..709eb9c 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -561,7 +561,7 @@ bool searcher::is_acceptable_method()
         if ( !p2.prove_lh() ) return false;
       }  
       else {
-        if ( !p.prove_lh(m.lh()) ) return false;
+        if ( !p.prove_lh(args.start_row * m.lh()) ) return false;
       }
     }
 
-- 
2.43.0


From ccf9c97496011eebfe765fe91a66ceacbd211ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 69/90] fix: methsearch did not always prove methods when told
 to allow null changes, several extents, or to avoid rows

---
 apps/methsearch/search.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 709eb9c..a5ccfe9 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -382,8 +382,8 @@ public:
    : args(args), p(args.n_extents), r(r) { init(); }
 
   struct raw {};
-  prover2( arguments const& args, raw )
-    : args(args), p(args.n_extents), r(args.bells)
+  prover2( arguments const& args, row const& r, raw )
+    : args(args), p(args.n_extents), r(r)
   {}
 
   bool prove( method::const_iterator i, method::const_iterator e ) {
@@ -511,7 +511,9 @@ bool searcher::is_acceptable_method()
   // part end group.
   if ( args.true_lead 
          && ( args.pends.size() > 1 
-              || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
+              || !( args.sym && args.hunt_bells && !args.treble_dodges )
+              || !args.true_trivial 
+              || args.true_course && args.avoid_rows.size() ) )
     {
       prover2 p(args);
       while ( p.prove(m.begin(), m.end()) &&
@@ -565,6 +567,21 @@ bool searcher::is_acceptable_method()
       }
     }
 
+  // If the null change or repeated changes are allowed, so is falseness
+  // within a section.  And is_division_false only copes with one extent.
+  else if ( args.true_half_lead && ( !args.true_trivial 
+              || args.n_extents > 1 && args.treble_dodges > 1 ) )
+    {
+      prover2 p(args);
+      if ( !p.prove(m.begin(), m.begin()+m.size()/2) )
+        return false;
+
+      // Only the first half-lead needs to avoid -Fr rows
+      prover2 p2(args, p.current_row(), prover2::raw());
+      if ( !p2.prove(m.begin()+m.size()/2, m.end()) )
+        return false;
+    }
+
   if ( args.require_CPS && !is_cps( m ) )
     return false;
 
@@ -1128,6 +1145,7 @@ cerr << "SOUP: " << ch << " at depth " << m.length() << endl;
   // This test doesn't effect the -E handling noted above as if the base
   // method passes this, so will the variant with a 12 or 1N lh.
   if ( args.true_half_lead && cur_div_len > 4 && !intersection
+       && args.n_extents == 1
        && is_division_false( m, ch, div_start, cur_div_len ) )
     return false;
   
-- 
2.43.0


From ac828d0c6a90c39908478611aacf75bc1a9dfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:49 +0000
Subject: [PATCH 70/90] fix: methsearch --has-points counted dodging throughout
 the lead as points

---
 apps/methsearch/methodutils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 332fdbf..cd848b3 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -403,8 +403,10 @@ static vector<int> find_dodges( method const& m, bool inc_places )
                      m[j].findplace(i) && m[j].findplace(i+1) ) ) 
       ++j;
     // Is there dodging throughout the lead?
-    if (j==l)
+    if (j==l) {
       dodges.push_back(-1);
+      continue;
+    }
 
     for ( int k=j; k<j+l; ++k ) {
       int k0=k;
-- 
2.43.0


From 4ea6b425679c9169adb541c9b5024c79723b544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:29 +0000
Subject: [PATCH 71/90] fix: methsearch -k did not make principles rotationally
 symmetric

---
 apps/methsearch/search.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index a5ccfe9..e4e0ae4 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1280,8 +1280,9 @@ void searcher::new_midlead_change()
 
       // XXX ALLIANCE -- locate rotational symmetry point
       // Additional requirements for the rotational symmetry point:
-      if ( args.hunt_bells && args.skewsym && lead_len % 4 == 0 
-           && depth % (lead_len/2) == lead_len / 4 - args.hunt_bells % 2 &&
+      if ( args.skewsym && lead_len % 4 == 0 
+           && depth % (lead_len/2) 
+                == lead_len/4 - (args.hunt_bells ? args.hunt_bells % 2 : 1) &&
            ! try_quarterlead_change( ch ) )
         continue;
 
@@ -1502,7 +1503,7 @@ void searcher::general_recurse()
     }
 
   // Only rotational symmetry
-  else if ( args.skewsym && depth == tqlead_sym_pt + 1 && lead_len > 4 )
+  else if ( args.skewsym && depth == tqlead_sym_pt + 1 )
     {
       assert( !args.doubsym && !args.sym );
 
-- 
2.43.0


From 0bcf79964bfc94b7181aeeda24377b14e62eea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 72/90] fix: methsearch -E considered lead end changes that do
 not give acceptable methods

---
 apps/methsearch/search.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index e4e0ae4..0ec5ae6 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -98,6 +98,7 @@ private:
   bool try_with_limited_le( const change& ch );
   bool try_floating_symmetry();
 
+  bool is_acceptable_structure();
   bool is_acceptable_method();
   void output_method( method const& meth );
 
@@ -348,7 +349,11 @@ bool searcher::try_with_limited_le( const change& ch )
 
   assert( m.length() == size_t(lead_len-1) );
 
-  if ( ! try_midlead_change(ch) || ! try_leadend_change(ch) ||
+  // With these symmetries, the half-lead change determines the lead-end change.
+  vector<change> const& allowed = args.allowed_changes.back();
+  if ( (args.skewsym || args.doubsym) && !args.floating_sym ||
+       ! binary_search( allowed.begin(), allowed.end(), ch, compare_changes ) ||
+       ! try_midlead_change(ch) || ! try_leadend_change(ch) ||
        args.hunt_bells % 2 == 1 && ! try_leadend_sym_change(ch) )
     {
       m.push_back(orig);
@@ -360,7 +365,7 @@ bool searcher::try_with_limited_le( const change& ch )
   // This used to call is_acceptable_method.  This was bad because
   // we don't want things like --start-at, --require, and the falseness
   // options to effect -E.  At least, I don't think we do.
-  bool ok = is_acceptable_leadhead( m.lh() );
+  bool ok = is_acceptable_structure();
   m.back() = orig;
   return ok;
 }
@@ -426,13 +431,9 @@ private:
   row r;
 };
 
-bool searcher::is_acceptable_method()
+// Requirements on the structure of the whole method
+bool searcher::is_acceptable_structure()
 {
-  if ( lexicographical_compare( m.begin(), m.end(), 
-           args.startmeth.begin(), args.startmeth.end(),
-           compare_changes ) )
-    return false;
-
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
@@ -497,6 +498,19 @@ bool searcher::is_acceptable_method()
        args.has_unpaired_points && !has_unpaired_points(m) )
     return false;
 
+  return true;
+}
+
+bool searcher::is_acceptable_method()
+{
+  if ( lexicographical_compare( m.begin(), m.end(), 
+           args.startmeth.begin(), args.startmeth.end(),
+           compare_changes ) )
+    return false;
+
+  if ( ! is_acceptable_structure() )
+    return false;
+
   if ( args.only_named && !method_libraries::has_method(m) ||
        args.only_unnamed && method_libraries::has_method(m) )
     return false;
-- 
2.43.0


From 966f7781d4c286a5e00c8008703c2ef7cec6ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 73/90] fix: methsearch -Fs threw an exception if the symmetry
 determined changes

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 0ec5ae6..ce44b89 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -687,7 +687,7 @@ inline void searcher::pop_change( row const* r_old )
         && prv )
       prv->remove_row(r);
     if ( r_old ) r = *r_old;  
-    else r = args.pends.rcoset_label( m.lh() );
+    else r = args.pends.rcoset_label( args.start_row * m.lh() );
   }
 }
 
-- 
2.43.0


From e7957c6dad3948cf9179cc99d3567ca949d2e689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:06 +0000
Subject: [PATCH 74/90] fix: methsearch --floating-sym rejected methods by the
 usual symmetry points

---
 apps/methsearch/search.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index ce44b89..7202abf 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -169,7 +169,7 @@ void searcher::reset()
   if (maintain_r) 
     r = args.pends.rcoset_label( args.start_row );
 
-  if ( args.true_lead && ( !args.sym ||  
+  if ( args.true_lead && ( !args.sym || args.floating_sym ||
          args.treble_dodges && !args.same_place_parity )  ||
        args.true_half_lead && ( args.pends.size() > 1 ||
          args.hunt_bells == 0 || args.treble_dodges > 1 ) ) 
@@ -525,7 +525,8 @@ bool searcher::is_acceptable_method()
   // part end group.
   if ( args.true_lead 
          && ( args.pends.size() > 1 
-              || !( args.sym && args.hunt_bells && !args.treble_dodges )
+              || !( args.sym && !args.floating_sym 
+                    && args.hunt_bells && !args.treble_dodges )
               || !args.true_trivial 
               || args.true_course && args.avoid_rows.size() ) )
     {
@@ -788,7 +789,8 @@ bool searcher::is_regular_hl( const row& hl )
 bool searcher::try_halflead_change( const change &ch )
 {
   // Rotationally symmetric single-hunt cyclic methods have cyclic half-leads
-  if ( args.skewsym && args.require_cyclic_les && args.hunt_bells == 1 )
+  if ( args.skewsym && !args.floating_sym 
+       && args.require_cyclic_les && args.hunt_bells == 1 )
     {
       row hl;
       for_each( m.begin(), m.end(), permute(hl) );
@@ -841,6 +843,9 @@ bool searcher::is_limited_le( const change& ch )
 
 bool searcher::try_halflead_sym_change( const change &ch )
 {
+  // The method may have its symmetry points elsewhere
+  if ( args.floating_sym ) return true;
+
   if ( (args.skewsym || args.doubsym) && args.require_limited_le 
        && !is_limited_le( ch.reverse() ) )
     return false;
@@ -932,7 +937,8 @@ bool searcher::try_leadend_sym_change( const change &ch )
   if ( args.no_78_pns && ch.findplace(bells-2) )
     return false;
 
-  if ( args.sym && !args.long_le_place && args.max_consec_blows
+  if ( args.sym && !args.floating_sym 
+       && !args.long_le_place && args.max_consec_blows
        && is_too_many_places( m, ch, args.max_consec_blows/2+1 ) )
     return false;
 
@@ -1055,19 +1061,22 @@ bool searcher::try_midlead_change( const change &ch )
            args.pas_alla_tria || args.pas_alla_tessera )
       {
         const int f = args.treble_front, b = args.treble_back, p = posn;
+        const bool sym = args.sym && !args.floating_sym, 
+          doubsym = args.doubsym && !args.floating_sym,
+          skewsym = args.skewsym && !args.floating_sym;
 
         if ( // If we're palindromic or glide symmetric (but not both) 
              // the last independent cross-section is when the treble is 
              // e.g. in 10-11 for maximus.
-             (args.sym ^ args.doubsym) && p == b - 3 ||
+             (sym ^ doubsym) && p == b - 3 ||
              // If we're maximally symmetric, it's when the treble's in 
              // 6-7 for fourteen or maximus, or 4-5 for royal or major.
-             args.sym && args.doubsym && p == (f + (b-f+1)/2 - 1)/2*2-1 ||
+             sym && doubsym && p == (f + (b-f+1)/2 - 1)/2*2-1 ||
              // If we're rotationally symmetric, it's when the treble's in 
              // 6-7 down for max or royal, 4-5 for major or minor
-             args.skewsym && p == (f + (b-f+1)/2)/2*2 - 1 && depth > hl_len ||
+             skewsym && p == (f + (b-f+1)/2)/2*2 - 1 && depth > hl_len ||
              // If we're asymmetric, the treble is in 2-3 on the way down.
-             !args.sym && !args.doubsym && !args.skewsym 
+             !sym && !doubsym && !skewsym 
                        && p == f && depth > hl_len ) 
         {
           // Count how many external (i.e. 1N) cross-sections there are:
@@ -1082,14 +1091,14 @@ bool searcher::try_midlead_change( const change &ch )
             // rotational symmetric, but we don't care because --exercise et 
             // al. are not enabled for non-palindromic methods.
             int value = 1;
-            if ( args.skewsym && i%hl_len != hl_len/2 - 1 ) value = 2;
+            if ( skewsym && i%hl_len != hl_len/2 - 1 ) value = 2;
      
             if (!m[i].internal()) external_cross_sections += value;
             cross_sections += value;
           }
           {
             int value = 1;
-            if ( args.skewsym && (b-f)%4 == 1 ) value = 2;
+            if ( skewsym && (b-f)%4 == 1 ) value = 2;
             if (!ch.internal()) external_cross_sections += value;
             cross_sections += value;
           }
@@ -1294,7 +1303,7 @@ void searcher::new_midlead_change()
 
       // XXX ALLIANCE -- locate rotational symmetry point
       // Additional requirements for the rotational symmetry point:
-      if ( args.skewsym && lead_len % 4 == 0 
+      if ( args.skewsym && !args.floating_sym && lead_len % 4 == 0 
            && depth % (lead_len/2) 
                 == lead_len/4 - (args.hunt_bells ? args.hunt_bells % 2 : 1) &&
            ! try_quarterlead_change( ch ) )
-- 
2.43.0


From 00c841526b10811ef266f37f6fc5c7ea4f0fd92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 75/90] fix: methsearch -Fl failed an assertion on false
 symmetric methods with null changes

---
 apps/methsearch/search.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 7202abf..0c63e8b 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -535,9 +535,9 @@ bool searcher::is_acceptable_method()
               args.true_course && !p.is_course_head() )
         ;
 
-      // This branch handles -Fc
+      // This branch handles -Fc, and -Fl unless it has been proved already
       if ( !p.truth() ) {
-        if ( !args.true_course && args.n_extents == 1 )  // i.e. if -Fl
+        if ( !args.true_course && args.n_extents == 1 && prv )
           assert( p.truth() );
         return false;
       }
-- 
2.43.0


From d9a4514fa07485e5194609d76fe715b4237d67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 76/90] fix: methsearch -I without -b has a prover for each
 method's stage

---
 apps/methsearch/search.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 0c63e8b..3da38b3 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -211,7 +211,9 @@ void searcher::filter( library const& in )
 
     if ( args.bells == 0 ) {
       if ( !args.set_bells( i->bells() ) ) continue;
-      init();
+      time_t const t = start;  // The timeout is for the whole run
+      searcher::reset();
+      start = t;
     }
     
 
-- 
2.43.0


From b2bdb153f9bf81b689393b2f40af5a111f5e5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 77/90] fix: methsearch expressions: a modulus of zero is an
 expression error

---
 apps/methsearch/expression.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index c625686..611e4ba 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -522,6 +522,14 @@ struct safe_divides : binary_function<T,T,T> {
   }
 };
 
+template <class T> 
+struct safe_modulus : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    if (y == T()) throw division_by_zero();
+    return x%y;
+  }
+};
+
 RINGING_END_ANON_NAMESPACE
 
 shared_pointer<expression::node> 
@@ -559,7 +567,7 @@ expression::parser::split_expr( vector<token>::const_iterator first,
       CASE( minus,      RINGING_PREFIX_STD minus         );
       CASE( times,      RINGING_PREFIX_STD multiplies    );
       CASE( divide,                        safe_divides  );
-      CASE( modulo,     RINGING_PREFIX_STD modulus       );
+      CASE( modulo,                        safe_modulus  );
       CASE( iless,      RINGING_PREFIX_STD less          );
       CASE( igreater,   RINGING_PREFIX_STD greater       );
       CASE( ilesseq,    RINGING_PREFIX_STD less_equal    );
-- 
2.43.0


From 8c831dc1fa6ad8915c605a2eeaddb254ada38dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 78/90] fix: methsearch formats: \x24 is a literal dollar

---
 apps/methsearch/format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 7f57fda..991b2a7 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -537,6 +537,8 @@ format_string::format_string( const string &infmt,
           unsigned char value = 0x00;
           value += parse_xdigit(*++iter) * 0x10;
           value += parse_xdigit(*++iter);
+          // Escape '$' from the next stage, as above
+          if (value == '$') *outfmts.top() << '$';
           *outfmts.top() << char(value);
         } break;
         // For everything else, \x -> literal x
-- 
2.43.0


From 18042a9142e843d41814fd0cda67ec01af4fcd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 79/90] fix: methsearch expressions accept variables with two
 numbers

---
 apps/methsearch/expression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 611e4ba..7606211 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -334,8 +334,8 @@ public:
     if ( iter != begin )
       num_opt = atoi( string( begin, iter ).c_str() );
 
-    if ( *iter == ',' ) {
-      string::const_iterator iter2(iter);
+    if ( iter != end && *iter == ',' ) {
+      string::const_iterator iter2(++iter);
       while ( iter != end && isdigit(*iter) ) ++iter;
       if ( iter != iter2 )
         num2_opt = atoi( string( iter2, iter ).c_str() );
@@ -869,6 +869,10 @@ private:
       string::const_iterator j = i;
       if ( *j != '$' ) return failed; ++j;
       while ( j < e && isdigit(*j) ) ++j;
+      if ( j < e && *j == ',' ) {
+        ++j;
+        while ( j < e && isdigit(*j) ) ++j;
+      }
       if ( j == e ) return more; // Or fail?
       // $N* is magic:
       if ( !isalpha(*j) && *j != '*' && *j != '#' && *j != '?' ) 
-- 
2.43.0


From dd789223bfae48358a4c965f4213ce9bcc3a02e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 80/90] fix: methsearch does not print part of the method that
 aborts the search

---
 apps/methsearch/format.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 991b2a7..4e65a50 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -295,7 +295,6 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
           return;
 
         case script_exception::abort_search:
-          os2 << string(os) << flush;
           throw exit_exception();
           
         default:
-- 
2.43.0


From a9a8aa2de0d825679e155a6832b6f756227d7db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:40 +0000
Subject: [PATCH 81/90] fix: methsearch offsets beyond the lead, and split
 tenors' coursing orders, are expression errors

---
 apps/methsearch/expression.cpp  |  1 +
 apps/methsearch/format.cpp      | 25 +++++++++++++++++++------
 apps/methsearch/methodutils.cpp |  3 ++-
 apps/methsearch/output.cpp      | 11 +++++------
 apps/methsearch/output.h        |  8 ++++++++
 apps/methsearch/prog_args.cpp   |  2 +-
 6 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 7606211..50acb65 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -927,6 +927,7 @@ expression::expression( const string& str )
 
 #define RINGING_CATCH_EXPRESSION_ERROR( retval )           \
   catch ( division_by_zero const& ) { return (retval); }   \
+  catch ( property_error   const& ) { return (retval); }   \
   catch ( bad_lexical_cast const& ) { return (retval); }   \
   catch ( bell::invalid    const& ) { return (retval); }   \
   catch ( row::invalid     const& ) { return (retval); }   \
diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 4e65a50..0c9d272 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -189,6 +189,19 @@ private:
   method_properties props;
 };
 
+RINGING_START_ANON_NAMESPACE
+static string get_property( const method_properties& props, 
+                            pair<int,int> const& nums, const string& name )
+{
+  try { 
+    return props.get_property( nums, name ); 
+  } 
+  catch ( property_error const& ) { 
+    return expr_error_string;
+  }
+}
+RINGING_END_ANON_NAMESPACE
+
 bool histogram_entry::cmp::operator()( const histogram_entry &x, 
                                        const histogram_entry &y ) const
 {
@@ -213,8 +226,8 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
         yval = expression_cache::evaluate(i->first.first, y.props);
       }
       else {
-        xval = x.props.get_property( i->first, i->second );
-        yval = y.props.get_property( i->first, i->second );
+        xval = get_property( x.props, i->first, i->second );
+        yval = get_property( y.props, i->first, i->second );
       }
 
       if ( xval < yval ) 
@@ -277,8 +290,8 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
                   break;
 
                 default:
-                  os << props.get_property( make_pair(num_opt, num2_opt), 
-                                            string(1, *iter) );
+                  os << get_property( props, make_pair(num_opt, num2_opt), 
+                                      string(1, *iter) );
                 }
             }
           else
@@ -493,8 +506,8 @@ format_string::format_string( const string &infmt,
         case 'a': have_payloads = true; break;
         case 'F': have_falseness_groups = true; break;
         case 'D': have_old_lhcodes = true; break;
-        case 'h': case 'r':
-          max_lead_offset = max( max_lead_offset, num_opt );
+        case 'h': case 'r': case 'p': case 'q':
+          max_lead_offset = max( max_lead_offset, max( num_opt, num2_opt ) );
       }
 
       // $[ options are converted into $N* options by the ']' 
diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index cd848b3..df50db7 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -24,6 +24,7 @@
 #endif
 
 #include "methodutils.h"
+#include "output.h"
 #include <string>
 #include <stdexcept>
 #include <iostream>
@@ -246,7 +247,7 @@ string tenors_together_coursing_order( const method& m )
 
 
   if ( b == m.bells() - 1 ) // 7 and 8 are in different orbits
-    throw runtime_error( "Unable to get a tenors together coursing order" );
+    throw property_error( "Unable to get a tenors together coursing order" );
   
   assert( b == m.bells() - 2 );
 
diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index f118573..0748309 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -139,13 +139,13 @@ static string format_pn( const method& m, pair<int,int> const& nums,
                          int fmt_opts ) {
   if (nums.first) {
     if ( nums.first > m.size() || nums.first <= 0 ) 
-      throw runtime_error( "Place notation offset out of range" );
+      throw property_error( "Place notation offset out of range" );
     method::const_iterator i( m.begin() + nums.first - 1 );
 
     vector<change> ch;
     if (nums.second) {
       if ( nums.second > m.size() || nums.second < nums.first ) 
-        throw runtime_error( "Place notation offset out of range" );
+        throw property_error( "Place notation offset out of range" );
       method::const_iterator e( m.begin() + nums.second );
 
       ch.assign(i, e);
@@ -202,12 +202,11 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  // TODO:  Should we cache all rows at same time?
 	  row r( m.bells() );
 	  int n( num_opts.first );
-	  for ( method::const_iterator 
-		  i( m.begin() ), e( m.begin() + num_opts.first );
+	  for ( method::const_iterator i( m.begin() ), e( m.end() );
 		n && i != e; ++i, --n ) 
 	    r *= *i;
 	  if ( n )
-	    throw runtime_error( "Format specifies row after end of method" );
+	    throw property_error( "Format specifies row after end of method" );
 	  os << r;
 	} break;
 
@@ -216,7 +215,7 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
             os << m.at( num_opts.first-1 ); 
           } catch ( out_of_range const& ) {
             // This should only happen if we're filtering with -U0 and no -n.
-            os << expr_error_string;
+            throw property_error( "Change offset out of range" );
           }
 	  break;
 
diff --git a/apps/methsearch/output.h b/apps/methsearch/output.h
index ebf06e0..2308953 100644
--- a/apps/methsearch/output.h
+++ b/apps/methsearch/output.h
@@ -27,6 +27,7 @@
 #pragma interface
 #endif
 
+#include <stdexcept>
 #include <string>
 #include <ringing/library.h>
 
@@ -53,4 +54,11 @@ private:
 // The string '<ERROR>' that we use to signal run-time errors in expressions.
 extern char const* expr_error_string;
 
+// Thrown by get_property() when the method does not have the property
+class property_error : public std::runtime_error
+{
+public:
+  explicit property_error( const string& str ) : runtime_error( str ) {}
+};
+
 #endif // METHSEARCH_OUTPUT_INCLUDED
diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index cee3a7c..9985046 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -1041,7 +1041,7 @@ bool arguments::validate_bells( arg_parser* ap )
   }
 
   if ( lead_len && formats_max_lead_offset() > lead_len ) {
-    if (ap) ap->error( "Format contains a $r or $h offset beyond the end of "
+    if (ap) ap->error( "Format contains a $r, $h, $p or $q offset beyond the end of "
                        "the lead" );
     return false;
   }
-- 
2.43.0


From 99143ad2c01ab690b7f161ae221d039a784730e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:40 +0000
Subject: [PATCH 82/90] fix: methsearch numbers each method once, even when its
 output is suppressed

---
 apps/methsearch/format.cpp | 2 ++
 apps/methsearch/output.cpp | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 0c9d272..ee672c2 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -103,6 +103,8 @@ public:
 private:
   virtual void append( library_entry const& entry ) {
     method_properties props( entry );
+    // Even methods that are then suppressed have a number
+    props.get_property( make_pair(0,0), "#" );
     fs.print_method( props, (os ? *os : cout) );
   }
 
diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index 0748309..a9e5cc2 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -76,7 +76,7 @@ class method_properties::impl2 : public library_entry::impl
 {
 public:
   explicit impl2( const method& m, const string& payload )
-    : m(m), payload(payload), named(false) {}
+    : m(m), payload(payload), named(false), number(0ul) {}
 
   string get_property( pair<int,int> const& num_opts, 
                        const string& name ) const;
@@ -100,6 +100,7 @@ private:
   mutable method m;
   const string payload;
   mutable bool named; // Have we looked up the name; not whether it is named
+  mutable RINGING_ULLONG number; // Set when first asked for
   mutable map< pair< pair<int,int>, string >, string > cache;
 };
 
@@ -291,7 +292,8 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 
 	case '#': {
 	  static RINGING_ULLONG n=0;
-	  os << setw(num_opts.first) << ++n;
+	  if (!number) number = ++n;
+	  os << setw(num_opts.first) << number;
 	} break;
  
         case 'i': {
-- 
2.43.0


From 02456febe23304bba628da5364ebe703ac8ccad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:09 +0000
Subject: [PATCH 83/90] fix: methsearch --limit stops a filter, inverted or not

---
 apps/methsearch/search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 3da38b3..1e8c500 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -209,6 +209,10 @@ void searcher::filter( library const& in )
 
     args.lead_len = args.orig_lead_len;
 
+    if ( search_limit && search_limit != -1 && 
+         search_count == search_limit )
+      break;
+
     if ( args.bells == 0 ) {
       if ( !args.set_bells( i->bells() ) ) continue;
       time_t const t = start;  // The timeout is for the whole run
-- 
2.43.0


From 8ac0c825adad14895d6a1c1d833357c0eb1a90f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:30 +0000
Subject: [PATCH 84/90] fix: methsearch -Mlead and half-leads start at the
 stroke at which they are rung

---
 apps/methsearch/music.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index b5d1780..82947fb 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -198,11 +198,17 @@ int musical_analysis::analyse( const method &m )
       vector< row > rows;
       row r = mi->first.first; // Set to the course head
 
+      // The first row after rounds is a handstroke, so lead heads (of leads
+      // of even length) are backstrokes.
+      bool back = true;
+      size_t const hl = m.size()/2;
+
       switch ( mi->first.second ) {
         case analyser::course:
           do 
             transform( m.begin(), m.end(), back_inserter(rows), permute(r) );
           while ( r != mi->first.first );
+          back = false;
           break;
 
         case analyser::lead:
@@ -218,24 +224,27 @@ int musical_analysis::analyse( const method &m )
         case analyser::half_lead_2:
           transform( m.begin() + m.size()/2, m.end(),
                      back_inserter(rows), post_permute(r) );
+          back = hl % 2 == 0;
           break;
 
         case analyser::half_lead_r:
 	  transform( m.rbegin() + m.size()/2 + 1, m.rend(),
                      back_inserter(rows), post_permute(r) );
           rows.push_back(r);
+          back = hl % 2 == 1;
           break;
 
         case analyser::half_lead_2r:
           transform( m.rbegin() + 1, m.rbegin() + m.size()/2 + 1,
                      back_inserter(rows), post_permute(r) );
+          back = m.size() % 2 == 1;
           break;
 
         default:
           assert(false);
       }
 
-      mi->second.process_rows( rows.begin(), rows.end() );  
+      mi->second.process_rows( rows.begin(), rows.end(), back );  
       score += mi->second.get_score();
     }
 
-- 
2.43.0


From 4e6ec8511a0afd069fe40265dc5b8a648e823aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:50 +0000
Subject: [PATCH 85/90] fix: methsearch -I without -b analyses each method's
 music at its own stage

---
 apps/methsearch/main.cpp  | 3 ++-
 apps/methsearch/music.cpp | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/main.cpp b/apps/methsearch/main.cpp
index 3d70f9f..fca20ba 100644
--- a/apps/methsearch/main.cpp
+++ b/apps/methsearch/main.cpp
@@ -48,7 +48,8 @@ int main( int argc, char *argv[] )
     method_libraries::init();
 
   // So that errors with -M options are presented now rather than later.
-  musical_analysis::force_init( args.bells );
+  if ( args.bells )
+    musical_analysis::force_init( args.bells );
 
   if ( formats_have_falseness_groups() )
     false_courses::optimise( args.bells );
diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index 82947fb..1331796 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -65,7 +65,14 @@ public:
  ~analyser() {}
     
   static analyser &instance( int bells ) 
-  { static analyser tmp( bells ); return tmp; }
+  {
+    // When filtering, methods may be of different stages
+    static map< int, analyser > tmp;
+    map< int, analyser >::iterator i( tmp.find(bells) );
+    if ( i == tmp.end() )
+      i = tmp.insert( make_pair( bells, analyser(bells) ) ).first;
+    return i->second;
+  }
 
   friend class patterns;
     
-- 
2.43.0


From 416f460e71f707ceaaf5715b66dc372f9ce72b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:12 +0000
Subject: [PATCH 86/90] fix: methsearch: brackets in the strings of
 expressions, and unmatched ones

---
 apps/methsearch/format.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index ee672c2..1232c64 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -58,10 +58,12 @@
 #include <ctype.h>
 #include <assert.h>
 #include <stdlib.h>
+#include <string.h>
 #else
 #include <cctype>
 #include <cassert>
 #include <cstdlib>
+#include <cstring>
 #endif
 #include <ringing/streamutils.h>
 #include <ringing/row.h>
@@ -587,18 +589,28 @@ format_string::format_string( const string &infmt,
                               << e.what() );
       }
     }
+    else if ( in_expr && ( *iter == '\'' || *iter == '"' ) ) {
+      // Brackets and parentheses are not special in a string
+      if ( !parens.empty() && parens.top() == *iter )
+        parens.pop();
+      else if ( parens.empty() || !strchr( "'\"", parens.top() ) )
+        parens.push(*iter);
+      *outfmts.top() << *iter;
+    }
+    else if ( in_expr && !parens.empty() && strchr( "'\"", parens.top() ) )
+      *outfmts.top() << *iter;
     else if ( *iter == '(' && in_expr ) {
       parens.push(*iter);
       *outfmts.top() << *iter;
     }
     else if ( *iter == ')' && in_expr ) {
-      if ( parens.top() != '(' )
+      if ( parens.empty() || parens.top() != '(' )
         throw argument_error( "Unmatched parenthesis in $[ ] expression" );
       parens.pop();
       *outfmts.top() << *iter;
     }
     else if ( *iter == ']' && in_expr ) {
-      if ( parens.top() != '[' )
+      if ( parens.empty() || parens.top() != '[' )
         throw argument_error( "Unmatched brackets in $[ ] expression" );
 
       string expr( *outfmts.top() );
@@ -629,6 +641,9 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
   }
 
+  if ( !parens.empty() )
+    throw argument_error( "Unmatched parenthesis, bracket or quotation mark" );
+
   assert( type == require_type ? in_expr : !in_expr );
 
   if ( line_break )
-- 
2.43.0


From 258af4da989c853bff0373d5f03e6dcfe84069f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:41 +0000
Subject: [PATCH 87/90] fix: rotational symmetry of leads with an odd number of
 changes

---
 apps/methsearch/methodutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index df50db7..660ea68 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -169,7 +169,7 @@ bool has_rotational_symmetry( const method &m )
     // Try m[i] / m[(i+1)%n] as the rotational symmetry point
     bool ok = true;
 
-    for ( int j=0; j<n/2 && ok; ++j )
+    for ( int j=0; j<(n+1)/2 && ok; ++j )
       if ( m[ (i+j+1)%n ] != m[ (n+i-j)%n ].reverse() )
         ok = false;
 
-- 
2.43.0


From 13062a215f25daafd48ee418f8a6da940237ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:35 +0000
Subject: [PATCH 88/90] fix: splices -h compared only a quarter of the second
 method's lead

---
 apps/splices/splices.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 9594008..a9f83ea 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -572,9 +572,8 @@ bool splices::test_splice( method const& a, method const& b )
   if ( !args.group_splices && args.same_le && a.back() != b.back() )
     return false;
 
+  // The half-lead option is handled by the falseness table
   int flags = row_block::no_final_lead_head; 
-  if ( args.half_leads ) 
-    flags |= row_block::half_lead_only;
 
   row lh(args.bells);
   string desc = test_splice( a, row_block(b, lh, flags), name_or_pn(args, b) );
-- 
2.43.0


From c532c036248c8c940ba098c92e118a75d911c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:35 +0000
Subject: [PATCH 89/90] fix: splices -I wrote the splices among the filtered
 methods

---
 apps/splices/splices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index a9f83ea..0dad3d2 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -556,7 +556,7 @@ string splices::test_splice( method const& a, vector<row> const& b,
 cerr << "Got " << sg.size() << endl;
 
   string desc( describe_splice(sg) );
-  if ( !args.group_splices /* && !args.filter_mode */ ) {
+  if ( !args.group_splices && !args.filter_mode ) {
     cout << name_or_pn(args, a);
     if ( args.meth.size() != 1 ) 
       cout << " / " << b_name;
-- 
2.43.0


From 9e0e19255e6aa4294b614372c61e84da47c4f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:04 +0000
Subject: [PATCH 90/90] fix: splices -o took minutes over methods sharing no
 rows out of course

---
 apps/splices/splices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 0dad3d2..64c0c38 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -497,8 +497,8 @@ string splices::describe_splice( group const& sg ) const
   make_string os;
   os << (sg.size()/2) << "-lead";
 
-  int const f2 = factorial(sg.bells() - hunts - 2);
-  int const f1 = f2 * (sg.bells() - hunts - 1);
+  int const f2 = factorial(args.bells - hunts - 2);
+  int const f1 = f2 * (args.bells - hunts - 1);
 
   if (sg.size() > 2 && (sg.size() == f1 || sg.size() == f1/2)) {
     bell pivot = get_pivot(sg);
-- 
2.43.0

