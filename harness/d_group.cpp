#include "driver.h"
#include <ringing/extent.h>
#include <ringing/group.h>
#include <ringing/proof.h>
#include <ringing/falseness.h>
#include <ringing/multtab.h>
#include <ringing/touch.h>
#include <ringing/mathutils.h>
#include <memory>
using namespace std;
using namespace ringing;

// ---- extents ------------------------------------------------------------------
// arguments that have their default values are left out
static ringing::extent ext( int w, int h, int t ) { return t != w+h ? ringing::extent(w,h,t) : h ? ringing::extent(w,h) : ringing::extent(w); }
static row enth( size_t n, int w, int h, int t ) { return t != w+h ? nth_row_of_extent(n,w,h,t) : h ? nth_row_of_extent(n,w,h) : nth_row_of_extent(n,w); }
static row inth( size_t n, int w, int h, int t ) { return t != w+h ? nth_row_of_incourse_extent(n,w,h,t) : h ? nth_row_of_incourse_extent(n,w,h) : nth_row_of_incourse_extent(n,w); }
static size_t epos( row const& r, int w, int h, int t ) { return t != w+h ? position_in_extent(r,w,h,t) : h ? position_in_extent(r,w,h) : r.bells() == w ? position_in_extent(r) : position_in_extent(r,w); }
static size_t ipos( row const& r, int w, int h, int t ) { return t != w+h ? position_in_incourse_extent(r,w,h,t) : h ? position_in_incourse_extent(r,w,h) : r.bells() == w ? position_in_incourse_extent(r) : position_in_incourse_extent(r,w); }
OP(e_all) {  // kind 0: whole extent, 1: in course, 2: through class extent
  int k = I(a[0]), w = I(a[1]), h = I(a[2]), t = I(a[3]); vector<row> v;
  if ( k == 0 ) for ( extent_iterator i( t != w+h ? extent_iterator(w,h,t) : h ? extent_iterator(w,h) : extent_iterator(w) ), e; i != e; ++i ) v.push_back(*i);
  else if ( k == 1 ) for ( incourse_extent_iterator i( t != w+h ? incourse_extent_iterator(w,h,t) : h ? incourse_extent_iterator(w,h) : incourse_extent_iterator(w) ), e; i != e; i++ ) v.push_back(*i);
  else { ringing::extent x( ext(w,h,t) ); if ( x.size() > 50000 ) throw runtime_error("big"); for ( extent_iterator i = x.begin(); i != x.end(); i++ ) v.push_back(*i); if ( v.size() != x.size() ) v.clear(); }
  return J(v);
}
OP(e_nth) { int w = I(a[1]), h = I(a[2]), t = I(a[3]);
  row r = enth( I(a[0]), w, h, t );
  ringing::extent x( ext(w,h,t) );
  return obj()("r", r)("x", x[ (size_t) I(a[0]) ])("pos", epos(r,w,h,t))("xpos", x[r])("sign", sign_of_nth_row_of_extent( I(a[0]) )).str(); }
OP(e_pos) { return J( epos( R(a[0]), I(a[1]), I(a[2]), I(a[3]) ) ); }
OP(e_nthic) { int w = I(a[1]), h = I(a[2]), t = I(a[3]);
  row r = inth( I(a[0]), w, h, t );
  return obj()("r", r)("pos", ipos(r,w,h,t)).str(); }
OP(e_random) { vector<row> v; for ( int i=0; i<I(a[3]); ++i ) { int w = I(a[0]), h = I(a[1]), t = I(a[2]); v.push_back( t != w+h ? random_row(w,h,t) : h ? random_row(w,h) : random_row(w) ); } return J(v); }
OP(e_changes) { vector<change> v; int w = I(a[0]), h = I(a[1]), t = I(a[2]); for ( changes_iterator i( t != w+h ? changes_iterator(w,h,t) : h ? changes_iterator(w,h) : changes_iterator(w) ), e; i != e; ++i ) { v.push_back(*i); if ( v.size() > 20000 ) break; } return J(v); }
static extent_iterator eit;
static string eitv() { return eit.is_end() ? "{\"end\":true,\"r\":[]}" : obj()("end", false)("r", *eit).str(); }
OP(e_begin) { eit = ext( I(a[0]), I(a[1]), I(a[2]) ).begin(); return eitv(); }
OP(e_end) { int w = I(a[0]), h = I(a[1]), t = I(a[2]); eit = ext(w,h,t).end(); extent_iterator q( t != w+h ? extent_iterator::end(w,h,t) : h ? extent_iterator::end(w,h) : extent_iterator::end(w) ); if ( !(q == eit) ) return "\"differ\""; eit = q; return eitv(); }
OP(e_next) { ++eit; return eitv(); }
OP(e_prev) { --eit; return eitv(); }

OP(e_cmp) {  // two positions (the number of rows: the end), in course?, w, h, t
  int m = I(a[0]), n = I(a[1]), w = I(a[3]), h = I(a[4]), t = I(a[5]); vector<int> v;
  if ( I(a[2]) ) {
    incourse_extent_iterator i(w,h,t), j(i); while (m--) ++i; while (n--) j++;
    v.push_back( i == j ); v.push_back( i != j );
  } else {
    extent_iterator i( ext(w,h,t).begin() ), j(i), k; while (m--) k = i++; while (n--) ++j;
    v.push_back( i == j ); v.push_back( i != j ); v.push_back( i < j ); v.push_back( i > j ); v.push_back( i <= j ); v.push_back( i >= j );
    if ( j == ext(w,h,t).begin() ) ; else { k = j; extent_iterator z( k-- ); v.push_back( z == j && k < j ); }
  }
  return J(v); }

// ---- groups -----------------------------------------------------------------
static group grp, grp2;
static void reset_g() { group g; grp.swap(g); group h; grp2.swap(h); }
static resetter rg( reset_g );
static string gv( group const& g ) {
  vector<int> inv; vector<bell> b = g.invariants(); for ( size_t i=0; i<b.size(); ++i ) inv.push_back( b[i] + 1 );
  return obj().raw("rows", JL( g.begin(), g.end() ))("b", g.bells())("size", g.size())("inv", inv).str();
}
OP(g_gen) { vector<row> v = Rs(a[0]); int how = I(a[1]);
  if ( how == 1 && v.size() == 1 ) grp = group(v[0]); else if ( how == 1 && v.size() == 2 ) grp = group(v[0],v[1]); else grp = group(v); return gv(grp); }
OP(g_none) { grp = group(); return gv(grp); }
OP(g_named) { string k = a[0]; int w = I(a[1]), h = I(a[2]), t = I(a[3]);
#define NAMED(x) ( t && t != w+h ? group::x(w,h,t) : h ? group::x(w,h) : group::x(w) )
#define NAMED_(x) ( (w+h) % 2 ? NAMED(x) : NAMED(x##_group) )
  grp = k == "sym" ? NAMED_(symmetric) : k == "alt" ? NAMED_(alternating) : k == "cyc" ? NAMED(cyclic_c) : k == "cyr" ? NAMED(cyclic_r)
      : k == "dic" ? NAMED(dihedral_c) : k == "dir" ? NAMED(dihedral_r) : group::trivial(w);
  return gv(grp); }
OP(g_even) { grp = grp.even_subgroup(); return gv(grp); }
OP(g_conj) { grp = grp.conjugate( R(a[0]) ); return gv(grp); }
OP(g_keep) { grp2 = grp; return "0"; }
OP(g_swap) { grp.swap( grp2 ); return gv(grp); }
OP(g_prod) { grp = group::direct_product( grp, grp2 ); return gv(grp); }
OP(g_cmp) { return obj()("eq", grp == grp2)("ne", grp != grp2)("lt", grp < grp2)("gt", grp > grp2)("le", grp <= grp2)("ge", grp >= grp2).str(); }
OP(g_label) { return obj()("rl", grp.rcoset_label( R(a[0]) ))("ll", grp.lcoset_label( R(a[0]) )).str(); }

// ---- proofs -------------------------------------------------------------------
static vector< shared_pointer<prover> > pr; static prover::failinfo fi;
static void reset_p() { pr.clear(); fi.clear(); }
static resetter rp( reset_p );
static string fv( prover::failinfo const& f ) {
  string s("["); bool first = true;
  for ( prover::failinfo::const_iterator i=f.begin(); i!=f.end(); ++i ) {
    list<int> l( i->_lines ); l.sort();
    if (!first) s += ','; first = false; s += obj()("r", i->_row)("l", vector<int>( l.begin(), l.end() )).str();
  }
  return s + "]";
}
static string pv( bool rv, int k ) {
  vector<int> sz, du; vector<bool> t; string tr("[");
  for ( size_t i=0; i<pr.size(); ++i ) { sz.push_back( pr[i]->size() ); du.push_back( pr[i]->duplicates() ); if (i) tr += ','; tr += J( pr[i]->truth() ); }
  return obj()("rv", rv)("k", k)("size", sz)("dups", du).raw("truth", tr + "]").raw("fi", fv(fi)).str();
}
OP(p_new) { pr.clear(); fi.clear(); int m = I(a[0]);
  if ( I(a[1]) ) pr.push_back( shared_pointer<prover>( m == 1 ? new prover(fi) : new prover(fi,m) ) ); else pr.push_back( shared_pointer<prover>( m == 1 ? new prover : new prover(m) ) );
  return pv( true, 0 ); }
OP(p_add) { return pv( pr.back()->add_row( R(a[0]) ), 0 ); }
OP(p_remove) { pr.back()->remove_row( R(a[0]) ); return pv( true, 0 ); }
OP(p_count) { return pv( true, pr.back()->count_row( R(a[0]) ) ); }
OP(p_branch) { pr.push_back( prover::create_branch( pr.back() ) ); return pv( true, 0 ); }
OP(p_drop) { if ( pr.size() > 1 ) pr.pop_back(); return pv( true, 0 ); }
OP(p_disable) { pr.back()->disable_proving(); return pv( true, 0 ); }
OP(p_proof) {  // known rows, rows, max, quick, how
  vector<row> t = Rs(a[0]), u = Rs(a[1]); int m = I(a[2]); bool qp = I(a[3]);
  typedef vector<row>::const_iterator It; proof<It> p;
  if ( I(a[4]) == 1 ) p.prove( u.begin(), u.end(), m, qp );   // an earlier proof leaves nothing behind
  bool rv = p.prove( t.begin(), t.end(), u.begin(), u.end(), m, qp );
  bool same = true;
  proof<It> q( t.begin(), t.end(), u.begin(), u.end(), m, qp ); same = same && bool(q) == rv && !q == !rv && bool(p) == rv;
  if ( m == 1 ) { proof<It> q2( t.begin(), t.end(), u.begin(), u.end(), qp ); same = same && bool(q2) == rv;
    if (!qp) { proof<It> q4( t.begin(), t.end(), u.begin(), u.end() ); same = same && bool(q4) == rv && fv(q4.failed()) == fv(q2.failed()); } }
  vector<row> all(t); all.insert( all.end(), u.begin(), u.end() );
  proof<It> q3( all.begin(), all.end(), m, qp ); same = same && bool(q3) == rv;
  if (!qp) {
    proof<It> q5( all.begin(), all.end(), m ); same = same && bool(q5) == rv && fv(q5.failed()) == fv(q3.failed());
    proof<It> q6; same = same && q6.prove( all.begin(), all.end(), m ) == rv && fv(q6.failed()) == fv(q3.failed());
    if ( m == 1 ) { proof<It> q7( all.begin(), all.end() ); same = same && bool(q7) == rv && fv(q7.failed()) == fv(q3.failed());
      proof<It> q8; same = same && q8.prove( all.begin(), all.end() ) == rv; proof<It> q9; same = same && q9.prove( t.begin(), t.end(), u.begin(), u.end() ) == rv; }
  } else if ( m == 1 ) { proof<It> q7( all.begin(), all.end(), true ); same = same && bool(q7) == rv; }
  ostringstream os; os << p;
  return obj()("rv", rv)("same", same)("first", os.str().substr( 0, os.str().find('\n') )).raw("fi", fv( p.failed() )).str();
}

// ---- falseness ------------------------------------------------------------------
static string fts( falseness_table const& f ) { return obj().raw("t", JL( f.begin(), f.end() ))("n", f.size()).str(); }
OP(f_table) { return fts( I(a[1]) ? falseness_table( M(a[0]), I(a[1]) ) : falseness_table( M(a[0]) ) ); }
OP(f_table2) { return fts( I(a[2]) ? falseness_table( M(a[0]), M(a[1]), I(a[2]) ) : falseness_table( M(a[0]), M(a[1]) ) ); }
OP(f_tablev) { return fts( I(a[2]) ? falseness_table( M(a[0]), Rs(a[1]), I(a[2]) ) : falseness_table( M(a[0]), Rs(a[1]) ) ); }
OP(f_tablevv) { return fts( I(a[2]) ? falseness_table( Rs(a[0]), Rs(a[1]), I(a[2]) ) : falseness_table( Rs(a[0]), Rs(a[1]) ) ); }
OP(f_group) { group g = falseness_table( M(a[0]), I(a[1]) ).generate_group(); return JL( g.begin(), g.end() ); }
OP(f_courses) { false_courses f( I(a[1]) ? false_courses( M(a[0]), I(a[1]) ) : false_courses( M(a[0]) ) ); return obj().raw("t", JL( f.begin(), f.end() ))("n", f.size()).str(); }
OP(f_symbols) { if ( I(a[2]) ) false_courses::optimise( I(a[2]) ); string s; bool ok = true;
  try { s = false_courses( M(a[0]), I(a[1]) ).symbols(); } catch ( exception const& ) { ok = false; }
  false_courses::optimise(0); if (!ok) throw runtime_error("refused"); return J(s); }
OP(f_lookup) { return J( false_courses::lookup_symbol( R(a[0]) ) ); }

// ---- multiplication tables ------------------------------------------------------
static auto_ptr<multtab> mt; static auto_ptr<sqmulttab> sq; static vector<multtab::pre_col_t> pre; static vector<multtab::post_col_t> post;
static void reset_m() { pre.clear(); post.clear(); mt.reset(); sq.reset(); }
static resetter rm( reset_m );
OP(u_new) { vector<row> v = Rs(a[0]), p = Rs(a[1]); reset_m();
  if ( p.empty() ) mt.reset( new multtab( v.begin(), v.end() ) );
  else if ( p.size() == 1 ) mt.reset( new multtab( v.begin(), v.end(), p[0] ) );
  else mt.reset( new multtab( v.begin(), v.end(), group(p) ) );
  vector<row> reps; for ( multtab::row_iterator i = mt->begin_rows(); i != mt->end_rows(); ++i ) reps.push_back( mt->find(*i) );
  return obj()("reps", reps)("n", mt->size())("g", mt->group_size())("b", mt->bells()).str(); }
OP(u_pre) { pre.push_back( mt->compute_pre_mult( R(a[0]) ) ); return J( pre.size() ); }
OP(u_post) { post.push_back( mt->compute_post_mult( R(a[0]) ) ); return J( post.size() ); }
OP(u_postc) { post.push_back( mt->compute_post_mult( C(a[0]) ) ); return J( post.size() ); }
OP(u_find) { multtab::row_t r = mt->find( R(a[0]) ); return obj()("i", r.index())("r", mt->find(r))("z", r.isrounds()).str(); }
OP(u_mulpre) { multtab::row_t r = pre[ I(a[0])-1 ] * mt->find( R(a[1]) ); return obj()("i", r.index())("r", mt->find(r)).str(); }
OP(u_mulpost) { multtab::row_t r = mt->find( R(a[1]) ) * post[ I(a[0])-1 ]; return obj()("i", r.index())("r", mt->find(r)).str(); }
// a chain: r, then each post column in turn
OP(u_chain) { multtab::row_t r = mt->find( R(a[0]) ); vector<int> c = ints(a[1]); vector<row> v;
  for ( size_t i=0; i<c.size(); ++i ) { r = r * post[ c[i]-1 ]; v.push_back( mt->find(r) ); } return J(v); }
// are two columns, or two entries, the same?
template <class T> static string cmps( T const& x, T const& y ) { typename T::cmp lt;
  return obj()("eq", x == y)("ne", x != y)("ord", (lt(x,y) ? 1 : 0) + (lt(y,x) ? 2 : 0)).str(); }
OP(u_cmppre) { return cmps( pre[ I(a[0])-1 ], pre[ I(a[1])-1 ] ); }
OP(u_cmppost) { return cmps( post[ I(a[0])-1 ], post[ I(a[1])-1 ] ); }
OP(u_cmprow) { return cmps( mt->find( R(a[0]) ), mt->find( R(a[1]) ) ); }
// a copy of the table is a table of its own
OP(u_copy) { vector<row> one( 1, row( mt->bells() ) ); multtab m( *mt ), m2( one.begin(), one.end() ); row x = R(a[0]), y = R(a[1]);
  multtab::post_col_t c = m.compute_post_mult( y ); row p = m.find( m.find(x) * c );
  m2 = m; multtab::post_col_t d = m2.compute_post_mult( y ); row q = m2.find( m2.find(x) * d );
  return obj()("p", p)("q", q)("n", m2.size())("c", c.null() || d.null() || c.col_index() != d.col_index()).str(); }
OP(u_sq) { vector<row> v = Rs(a[0]); sqmulttab t( v.begin(), v.end() ); row x = R(a[1]), y = R(a[2]);
  sqmulttab::row_t p = t.find(x) * t.find(y);
  return obj()("r", t.find(p))("pre", t.find( t.compute_pre_mult(x) * t.find(y) ))("post", t.find( t.find(x) * t.compute_post_mult(y) )).str(); }

// ---- touches ------------------------------------------------------------------
// tree: "c" stage:changes  |  "l" then (count,node)*, written as  (n:swaps;n:swaps)  and  [2*node 3*node]
static touch_node* tree( touch& t, string const& s, size_t& i ) {
  if ( s[i] == '(' ) {
    size_t j = s.find( ')', i ); touch_changes* c = new touch_changes; t.push_back( c );
    vector<change> v = Cs( s.substr( i+1, j-i-1 ) ); for ( size_t k=0; k<v.size(); ++k ) c->push_back( v[k] );
    i = j+1; return c;
  }
  touch_child_list* l = new touch_child_list; t.push_back( l ); ++i;
  while ( s[i] != ']' ) {
    size_t j = s.find( '*', i ); int n = I( s.substr( i, j-i ) ); i = j+1;
    touch_node* c = tree( t, s, i ); l->push_back( n, c );
    if ( s[i] == ',' ) ++i;
  }
  ++i; return l;
}
OP(t_walk) {
  touch t; size_t i = 0; t.set_head( tree( t, a[0], i ) );
  vector<change> v; for ( touch::const_iterator j = t.begin(), e = t.end(); j != e; ++j ) { v.push_back(*j); if ( v.size() > 3000 ) break; }
  vector<change> w; touch u( t ); for ( touch::const_iterator j = u.begin(); j != u.end(); ) { touch::const_iterator k( j++ ); w.push_back(*k); if ( w.size() > 3000 ) break; }
  bool same = v.size() == w.size(); for ( size_t k=0; same && k<v.size(); ++k ) same = v[k] == w[k];
  // each position against those before it, the end included
  vector<touch::const_iterator> its; vector<int> at;
  for ( touch::const_iterator j = t.begin(); its.size() < 60; ++j ) {
    its.push_back( j ); size_t k = 0; while ( !(its[k] == j) || its[k] != j ) ++k; at.push_back( k );
    if ( j == t.end() ) break;
  }
  return obj()("c", v)("same", same)("at", at).str();
}
OP(t_none) { touch t; int n = 0; for ( touch::const_iterator j = t.begin(); j != t.end(); ++j ) ++n; return J(n); }
OP(t_pn) { touch t; t.set_head( new touch_changes( a[1], I(a[0]) ) ); vector<change> v; for ( touch::const_iterator j = t.begin(); j != t.end(); ++j ) v.push_back(*j); return J(v); }
