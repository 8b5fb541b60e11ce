#include "driver.h"
#include <ringing/place_notation.h>
#include <iterator>
using namespace std;
using namespace ringing;

static vector<change> const& vc( method const& m ) { return m; }
OP(n_parse) {
  int n = I(a[0]); string t = a[1]; obj o;
  bool ok[3]; vector<change> r[3]; int b = -1, len = -1;
  for ( int k=0; k<3; ++k ) try {
    if ( k == 0 ) { method m( t, n ); r[k] = m; b = m.bells(); len = m.length(); }
    else if ( k == 1 ) { method m( t.c_str(), n, "X" ); r[k] = m; if ( string(m.name()) != "X" ) b = -2; }
    else interpret_pn( n, t.begin(), t.end(), back_inserter( r[k] ) );
    ok[k] = true;
  } catch ( exception const& ) { ok[k] = false; r[k].clear(); }
  if ( !ok[0] && !ok[1] && !ok[2] ) throw runtime_error("refused");
  o("ok", ok[0] && ok[1] && ok[2])("s", r[0])("c", r[1])("i", r[2])("b", b)("len", len);
  return o.str();
}
// Only the first k characters are the place notation
OP(n_range) {
  vector<change> r; interpret_pn( I(a[0]), a[1].begin(), a[1].begin() + I(a[2]), back_inserter( r ) );
  return J(r);
}
OP(m_fmt) {
  method m = M(a[0]); int f = I(a[1]); string t = f ? m.format(f) : m.format();
  method b( t, m.bells() );
  return obj()("t", t)("back", vc(b)).str();
}
OP(m_facts) {
  method m = M(a[0]); m.name( a[1] ); obj o; int n = m.bells(), len = m.length();
  o("lh", m.lh())("leads", m.leads())("reg", m.isregular())("hunts", m.huntbells())("sym", m.issym())
   ("pal", m.ispalindromic())("dbl", m.isdouble())("sp", m.symmetry_point())("blows", m.maxblows())
   ("code", m.lhcode())("len", len)("bells", n);
  vector<bool> x; string s[5];
  vector<int> bs, bp, pl, dg, ip, ab;
  for ( int b=0; b<n; ++b ) {
    bs.push_back( m.issym(bell(b)) ); pl.push_back( m.isplain(bell(b)) ); dg.push_back( m.hasdodges(bell(b)) ); ip.push_back( m.hasplaces(bell(b)) );
    bp.push_back( len % 2 ? -2 : m.ispalindromic(bell(b)) ? m.symmetry_point(bell(b)) : -1 );
  }
  for ( int i=0; i<len; ++i ) ab.push_back( m.is_palindromic_about(i) );
  o("bs", bs)("bp", bp)("pl", pl)("dg", dg)("ip", ip)("ab", ab);
  o("c18", m.methclass(2018))("c19", m.methclass(2019))("c", m.methclass());
  o("f18", m.fullname(2018))("f", m.fullname())("n18", method::classname(m.methclass(2018),2018))("n", method::classname(m.methclass()));
  return o.str();
}
OP(m_stage) { return J( method::stagename( I(a[0]) ) ); }
OP(m_lhcode) { return J( M(a[0]).lhcode() ); }
// The name of unnamed methods
OP(m_untitled) { method::set_untitled( a[0] ); method m( "x", 4 ), k( string("x"), 4 ); method e; 
  return obj()("a", m.name())("b", string(k.name()))("c", e.name()).str(); }
static void reset_untitled() { method::set_untitled( "Untitled" ); }
static resetter ru( reset_untitled );
// Building a method a change at a time
static method cur;
static void reset_cur() { method m; cur.swap(m); }
static resetter rc( reset_cur );
static string curv() { return obj()("cs", vc(cur))("b", cur.bells())("l", cur.length()).str(); }
OP(m_new) { cur = method( I(a[1]), I(a[0]) ); return curv(); }
OP(m_push) { cur.push_back( C(a[0]) ); return curv(); }
OP(m_pushs) { cur.push_back( a[0] ); return curv(); }
OP(m_swapwith) { method m( a[1], I(a[0]) ); m.swap( cur ); return curv(); }
