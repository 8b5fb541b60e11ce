#include "driver.h"
#include <ringing/music.h>
#include <ringing/row_wildcard.h>
using namespace std; using namespace ringing;
static music mus;
static void reset_m() { mus = music(); }
static resetter rm(reset_m);
static string shown() {
  vector<string> t; for ( music::const_iterator i=mus.begin(); i!=mus.end(); ++i ) t.push_back(i->get());
  return obj()("b",(int)mus.bells())("t",t).str();
}
static obj counts() {
  vector<int> h,b,a,th,tb,ta;
  for ( music::const_iterator i=mus.begin(); i!=mus.end(); ++i ) {
    h.push_back(i->count(eHandstroke)); b.push_back(i->count(eBackstroke)); a.push_back(i->count());
    th.push_back(i->total(eHandstroke)); tb.push_back(i->total(eBackstroke)); ta.push_back(i->total());
  }
  vector<int> s, c;
  s.push_back(mus.get_score(eHandstroke)); s.push_back(mus.get_score(eBackstroke)); s.push_back(mus.get_score());
  c.push_back(mus.get_count(eHandstroke)); c.push_back(mus.get_count(eBackstroke)); c.push_back(mus.get_count());
  return obj()("h",h)("b",b)("a",a)("th",th)("tb",tb)("ta",ta)("s",s)("c",c);
}
OP(w_new) { mus = music( I(a[0]) ); return shown(); }
OP(w_clear) { mus.clear( I(a[0]) ); return shown(); }
OP(w_pat) { int h = I(a[1]), b = I(a[2]); music_details d( "*", 7, 8 );
  if ( h == b && h == 1 ) d = music_details( a[0] );
  else if ( h == b ) d.set( a[0], h );
  else if ( h > b ) d.set( a[0], h, b );
  else d = music_details( a[0], h, b );
  if ( d.get() != a[0] ) return "\"another pattern\"";
  mus.push_back(d);
  return shown(); }
OP(w_str) { mus.add_scored_music_string( a[0] ); return shown(); }
OP(w_bells) { mus.set_bells( I(a[0]) ); return shown(); }
OP(w_row) {
  bool m = I(a[1]) ? mus.process_row( R(a[0]), true ) : mus.process_row( R(a[0]) );
  string w("["); bool first = true;
  for ( music::const_iterator i=mus.begin(); i!=mus.end(); ++i ) {
    vector<bell> v = i->last_wildcard_matches(); vector<int> x; for ( size_t k=0; k<v.size(); ++k ) x.push_back( (int) v[k] + 1 );
    if (!first) w += ','; first = false; w += J(x);
  }
  return counts()("m",m).raw("w",w+"]").str();
}
OP(w_rows) { vector<row> r = Rs(a[0]); if ( I(a[1]) ) mus.process_rows( r.begin(), r.end(), true ); else mus.process_rows( r.begin(), r.end() ); return counts().str(); }
OP(w_reset) { mus.reset_music(); return counts().str(); }
OP(w_poss) {
  vector<int> c, s;
  for ( music::const_iterator i=mus.begin(); i!=mus.end(); ++i ) { c.push_back( i->possible_matches(mus.bells()) ); s.push_back( i->possible_score(mus.bells()) ); }
  return obj()("c",c)("s",s)("t",mus.get_possible_score()).str();
}
OP(w_count) {
  int n = I(a[1]); vector<int> v;
  v.push_back( row_wildcard( a[0], n ).count() );
  v.push_back( row_wildcard( a[0] ).count(n) );
  v.push_back( music_details( a[0] ).possible_matches(n) );
  return J(v);
}
