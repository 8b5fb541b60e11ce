#include "driver.h"
#include <algorithm>
#include <ringing/mathutils.h>
using namespace std;
using namespace ringing;

OP(r_maths) {   // two numbers, n
  int x = I(a[0]), y = I(a[1]), n = I(a[2]);
  return obj()("hcf", hcf(x,y))("lcm", lcm(x,y))("fact", (int) factorial(n))("fib", (int) fibonacci(n))("landau", n ? (int) landau(n) : 1)("prime", is_prime(x))("next", (int) next_prime(x))("pow", (int) ipower(x % 13,n % 7))
    ("sign", sign(x))("nsign", sign(-x)).str();
}
OP(r_mul) { return J( R(a[0]) * R(a[1]) ); }
OP(r_mulassign) { row r = R(a[0]); r *= R(a[1]); return J(r); }
OP(r_selfmul) { row r = R(a[0]); r *= r; return J(r); }
OP(r_div) { return J( R(a[0]) / R(a[1]) ); }
OP(r_divassign) { row r = R(a[0]); r /= R(a[1]); return J(r); }
OP(r_inv) { return J( R(a[0]).inverse() ); }
OP(r_pow) { return J( R(a[0]).power( I(a[1]) ) ); }
OP(r_conj) { return J( R(a[0]).conjugate( R(a[1]) ) ); }
OP(r_facts) {
  row r = R(a[0]); obj o;
  vector<int> cs, fd; 
  for ( int i=0; i<r.bells(); ++i ) { cs.push_back( (int)r.cycle_size(i) ); fd.push_back( r.find(bell(i)) + 1 ); }
  o("order", r.order())("sign", r.sign())("isrounds", r.isrounds())("bells", r.bells())
   ("ncyc", (int)r.num_cycles())("cyc", cs)("find", fd)("cycles", r.cycles())
   ("pblh", r.ispblh());
  vector<int> ph; for ( int h=0; h<r.bells(); ++h ) ph.push_back( r.ispblh(h) );
  o("pblhh", ph)("copy", row(r))("print", r.print());
  ostringstream os; os << r; o("out", os.str());
  row back( os.str() ); o("back", back);
  istringstream is( os.str() + " 21" ); row r2; is >> r2; o("sread", r2); row r3; is >> r3; o("snext", r3);
  row asg; asg = os.str(); o("asg", asg)("eqself", asg == r && !(asg != r) && asg.hash() == r.hash());
  return o.str();
}
OP(r_cmp) {
  row x = R(a[0]), y = R(a[1]); obj o;
  o("eq", x == y)("ne", x != y)("lt", x < y)("gt", x > y)("le", x <= y)("ge", x >= y)
   ("hasheq", x.hash() == y.hash());
  return o.str();
}
OP(r_areconj) {
  row x = R(a[0]), y = R(a[1]); bool c = are_conjugate(x,y); row k = conjugator(x,y);
  return obj()("are", c)("k", k).str();
}
OP(r_parse) { return J( row( a[0] ) ); }
OP(r_parsec) { return J( row( a[0].c_str() ) ); }
OP(r_sparse) { istringstream is( a[0] ); row r; is >> r; if ( !is ) throw runtime_error("bad"); return J(r); }
OP(r_vec) { return J( R(a[0]) ); }
OP(r_resize) { row r = R(a[0]); r.resize( I(a[1]) ); return J(r); }
OP(r_swap) { row r = R(a[0]); r.swap( I(a[1])-1, I(a[2])-1 ); return J(r); }
OP(r_special) {
  int n = I(a[0]); obj o;
  o("rounds", row(n))("rounds2", row::rounds(n))("queens", row::queens(n))("kings", row::kings(n))
   ("tittums", row::tittums(n))("rev", row::reverse_rounds(n));
  return o.str();
}
OP(r_cyclic) { int n = I(a[0]), h = I(a[1]), c = I(a[2]); return J( c != 1 ? row::cyclic(n,h,c) : h != 1 ? row::cyclic(n,h) : row::cyclic(n) ); }
OP(r_pblh) { return J( I(a[1]) != 1 ? row::pblh( I(a[0]), I(a[1]) ) : row::pblh( I(a[0]) ) ); }
OP(r_rev3) { return J( row::reverse_rounds( I(a[0]), I(a[1]), I(a[2]) ) ); }
OP(r_change) { return J( R(a[0]) * C(a[1]) ); }
OP(r_changeassign) { row r = R(a[0]); r *= C(a[1]); return J(r); }
OP(r_block) {
  vector<change> c = Cs(a[0]); row s = R(a[1]); int f = I(a[2]);
  if ( s.bells() == 0 ) { row_block b( c, f ); return J( (vector<row> const&) b ); }
  row_block b( c, s, f ); return J( (vector<row> const&) b );
}
OP(r_reblock) {
  vector<change> c = Cs(a[0]); row_block b( c ); b.set_start( R(a[1]) ); b.recalculate(); return J( (vector<row> const&) b );
}
OP(r_permute) {
  vector<row> v = Rs(a[0]); vector<change> c = Cs(a[1]); int n = I(a[2]);
  vector<row> out; permuter p(n); post_permuter q(n); row r(n), s(n); row_permuter rp(r); row_post_permuter rq(s);
  for ( size_t i=0; i<v.size(); ++i ) { out.push_back( p(v[i]) ); out.push_back( q(v[i]) ); out.push_back( rp(v[i]) ); out.push_back( rq(v[i]) ); }
  for ( size_t i=0; i<c.size(); ++i ) { out.push_back( p(c[i]) ); out.push_back( q(c[i]) ); out.push_back( rp(c[i]) ); out.push_back( rq(c[i]) ); }
  out.push_back( p.get() ); out.push_back( q.get() ); out.push_back(r); out.push_back(s);
  return J(out);
}

// ---- changes -------------------------------------------------------------
static change cur;
static void reset_cur() { cur = change(); }
static resetter rs1( reset_cur );
static string facts( change const& c ) {
  obj o; int n = c.bells();
  o("c", c)("print", c.print())("lx", c.print( change::C_LCROSS ))("dash", c.print( change::C_DASH ))("ux", c.print( change::C_UCROSS ));
  ostringstream os; os << c; o("out", os.str());
  o("sign", c.sign())("internal", c.internal())("nplaces", c.count_places());
  vector<int> pl, fp, bp; vector<bell> p = c.places();
  for ( size_t i=0; i<p.size(); ++i ) pl.push_back( int(p[i]) + 1 );
  for ( int i=0; i<n; ++i ) { if ( c.findplace(i) ) fp.push_back(i+1); bell b(i); bp.push_back( int( b * c ) + 1 ); }
  o("places", pl)("findplace", fp)("bell", bp)("row", row(n) * c)("rev", c.reverse());
  change back( n, c.print() ); o("back", back)("eqback", back == c && !(back != c));
  o("viaplaces", change( n, p ));
  return o.str();
}
OP(c_parse) { return facts( change( I(a[0]), a[1] ) ); }
OP(c_parsec) { return facts( change( I(a[0]), a[1].c_str() ) ); }
OP(c_places) {
  vector<int> v = ints( a[1] ); vector<bell> p; for ( size_t i=0; i<v.size(); ++i ) p.push_back( bell(v[i]-1) );
  return facts( change( I(a[0]), p ) );
}
OP(c_set) { change d; d.set( I(a[0]), a[1] ); return facts( d ); }
OP(c_new) { cur = change( I(a[0]) ); return facts( cur ); }
OP(c_load) { cur = change( I(a[0]), a[1] ); return facts( cur ); }
OP(c_swappair) { bool b = cur.swappair( bell( I(a[0]) - 1 ) ); return obj()("did", b).raw("f", facts(cur)).str(); }
OP(c_cmp) {
  change x = C(a[0]), y = C(a[1]); obj o;
  o("eq", x == y)("ne", x != y)("lt", x < y)("gt", x > y)("le", x <= y)("ge", x >= y);
  return o.str();
}
OP(c_same) { return J( have_same_places( C(a[0]), C(a[1]) ) ); }
