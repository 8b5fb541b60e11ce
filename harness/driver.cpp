#include "driver.h"
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
using namespace std;
using namespace ringing;

map<string, handler_t>& registry() { static map<string, handler_t> r; return r; }
static vector<void(*)()>& resetters() { static vector<void(*)()> r; return r; }
resetter::resetter( void (*f)() ) { resetters().push_back(f); }

vector<string> split( string const& s, char c ) {
  vector<string> v; string cur;
  for ( size_t i=0; i<s.size(); ++i ) if ( s[i] == c ) { v.push_back(cur); cur.clear(); } else cur += s[i];
  v.push_back(cur); return v;
}
int I( string const& s ) { return atoi( s.c_str() ); }
vector<int> ints( string const& s ) {
  vector<int> v; istringstream is(s); int i; while ( is >> i ) v.push_back(i); return v;
}
row R( string const& s ) {
  vector<int> v = ints(s); vector<bell> b;
  for ( size_t i=0; i<v.size(); ++i ) b.push_back( bell(v[i]-1) );
  return row(b);
}
vector<row> Rs( string const& s ) {
  vector<row> v; if ( s.empty() ) return v;
  vector<string> p = split(s,';'); for ( size_t i=0; i<p.size(); ++i ) v.push_back(R(p[i])); return v;
}
change C( string const& s ) {
  size_t k = s.find(':'); change c( atoi( s.substr(0,k).c_str() ) );
  vector<int> v = ints( s.substr(k+1) );
  // built right to left so that no edge of the editing code is involved
  for ( size_t i=v.size(); i>0; --i ) c.swappair( v[i-1]-1 );
  return c;
}
vector<change> Cs( string const& s ) {
  vector<change> v; if ( s.empty() ) return v;
  vector<string> p = split(s,';'); for ( size_t i=0; i<p.size(); ++i ) v.push_back(C(p[i])); return v;
}
method M( string const& s ) {
  vector<change> c = Cs(s); method m; for ( size_t i=0; i<c.size(); ++i ) m.push_back(c[i]); return m;
}
vector<string> Ss( string const& s ) { if ( s.empty() ) return vector<string>(); return split( s, '\x1f' ); }

string J( int i ) { ostringstream o; o << i; return o.str(); }
string J( long i ) { ostringstream o; o << i; return o.str(); }
string J( unsigned i ) { ostringstream o; o << i; return o.str(); }
string J( size_t i ) { ostringstream o; o << i; return o.str(); }
string J( bool b ) { return b ? "true" : "false"; }
string J( char const* s ) { return J( string(s) ); }
string J( string const& s ) {
  string o("\"");
  for ( size_t i=0; i<s.size(); ++i ) {
    unsigned char c = s[i];
    if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
    else if ( c < 32 || c > 126 ) { char b[8]; sprintf( b, "\\u%04x", c ); o += b; }
    else o += c;
  }
  return o + "\"";
}
string J( row const& r ) {
  string s("["); for ( int i=0; i<r.bells(); ++i ) { if (i) s += ','; s += J( int(r[i]) + 1 ); } return s + "]";
}
// A change is observed through its effect: following each bell through it.
string J( change const& c ) {
  string s("{\"n\":"); s += J( c.bells() ); s += ",\"s\":["; bool first = true;
  for ( int i=0; i<c.bells()-1; ++i ) if ( c.findswap(i) ) { if (!first) s += ','; first = false; s += J(i+1); }
  return s + "]}";
}

int main() {
  string line;
  while ( getline( cin, line ) ) {
    vector<string> a = split( line, '\t' );
    for ( size_t i=0; i<a.size(); ++i ) { // unescape
      string o; for ( size_t j=0; j<a[i].size(); ++j )
        if ( a[i][j] == '\\' && j+1 < a[i].size() ) { ++j; char c = a[i][j]; o += c=='t' ? '\t' : c=='n' ? '\n' : c=='r' ? '\r' : c=='0' ? '\0' : c; }
        else o += a[i][j];
      a[i] = o;
    }
    string op = a[0]; a.erase( a.begin() );
    string out;
    if ( op == "session" ) {
      for ( size_t i=0; i<resetters().size(); ++i ) resetters()[i]();
      out = "{\"ok\":true,\"v\":0}";
    }
    else {
      map<string, handler_t>::const_iterator h = registry().find(op);
      if ( h == registry().end() ) { cerr << "unknown op " << op << "\n"; return 3; }
      alarm(20);
      try { out = "{\"ok\":true,\"v\":" + h->second(a) + "}"; }
      catch ( exception const& e ) { out = string("{\"ok\":false,\"v\":\"error\"}"); }
      alarm(0);
    }
    puts( out.c_str() ); fflush( stdout );
  }
}
