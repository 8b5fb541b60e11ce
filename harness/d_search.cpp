#include "driver.h"
#include <ringing/touch.h>
#include <ringing/basic_search.h>
#include <ringing/table_search.h>
#include <ringing/group.h>
using namespace std; using namespace ringing;
struct collect : search_base::outputer {
  method const& m; vector<change> const& c; int limit; vector< vector<int> > out;
  collect( method const& m, vector<change> const& c, int limit ) : m(m), c(c), limit(limit) {}
  bool operator()( const touch& t ) {
    vector<int> q; size_t i = 0;
    for ( touch::const_iterator k=t.begin(), e=t.end(); k!=e; ++k, ++i ) {
      if ( i % m.size() + 1 < m.size() ) { if ( !(*k == m[i % m.size()]) ) q.push_back(-2); continue; }
      if ( *k == m.back() ) { q.push_back(0); continue; }
      int x = -1; for ( size_t j=0; j<c.size(); ++j ) if ( c[j] == *k ) x = j+1;
      q.push_back(x);
    }
    if ( i % m.size() ) q.push_back(-3);
    out.push_back(q);
    return limit >= 0 && (int) out.size() >= limit;
  }
};
// kind, method, calls, part ends, min, max, flags, limit
OP(s_run) {
  int kind = I(a[0]); method m = M(a[1]); vector<change> c = Cs(a[2]); vector<row> pe = Rs(a[3]);
  pair<size_t,size_t> r( I(a[4]), I(a[5]) < 0 ? size_t(-1) : size_t(I(a[5])) );
  int f = I(a[6]), limit = I(a[7]);
  group g( pe );
  collect o( m, c, limit );
  table_search::flags tf = (table_search::flags) f;
  switch ( kind ) {
    case 0: if ( f & 1 ) basic_search( m, c, true ).run(o); else basic_search( m, c ).run(o); break;
    case 1: if ( f & 1 ) basic_search( m, c, r, true ).run(o); else basic_search( m, c, r ).run(o); break;
    case 2: if ( f ) table_search( m, c, g, tf ).run(o); else table_search( m, c, g ).run(o); break;
    case 3: if ( f ) table_search( m, c, g, r, tf ).run(o); else table_search( m, c, g, r ).run(o); break;
    case 4: if ( f & 1 ) table_search( m, c, true ).run(o); else table_search( m, c ).run(o); break;
    case 5: if ( f & 1 ) table_search( m, c, r, true ).run(o); else table_search( m, c, r ).run(o); break;
    case 6: { table_search s( m, c, g, r, tf ); collect o1( m, c, 1 ); s.run(o1); s.run(o); break; }  // run again
  }
  string s("["); for ( size_t i=0; i<o.out.size(); ++i ) { if (i) s += ','; s += J(o.out[i]); } return s + "]";
}
