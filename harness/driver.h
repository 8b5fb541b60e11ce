// Conformance driver: a line-oriented command server over the library.
// One command per line, fields separated by tabs; one JSON answer per line.
#ifndef VERIF_DRIVER_H
#define VERIF_DRIVER_H
#include <ringing/common.h>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <stdexcept>
#include <ringing/row.h>
#include <ringing/change.h>
#include <ringing/method.h>

typedef std::vector<std::string> args_t;
typedef std::string (*handler_t)( args_t const& );
std::map<std::string, handler_t>& registry();
struct reg { reg( char const* n, handler_t h ) { registry()[n] = h; } };
struct resetter { resetter( void (*f)() ); };

// Decoding of arguments
int I( std::string const& s );
std::vector<int> ints( std::string const& s );
std::vector<std::string> split( std::string const& s, char c );
ringing::row R( std::string const& s );             // "2 1 3" (1-based)
std::vector<ringing::row> Rs( std::string const& s );  // "2 1 3;1 2 3"
ringing::change C( std::string const& s );          // "4:12 34" = n:swaps (left positions, 1-based)
std::vector<ringing::change> Cs( std::string const& s );
ringing::method M( std::string const& s );
std::vector<std::string> Ss( std::string const& s );   // strings separated by \x1f

// Encoding of results
std::string J( int i );
std::string J( long i );
std::string J( unsigned i );
std::string J( size_t i );
std::string J( bool b );
std::string J( std::string const& s );
std::string J( char const* s );
std::string J( ringing::row const& r );             // [2,1,3]
std::string J( ringing::change const& c );          // [[n],[left positions of swaps]]
template <class It> std::string JL( It b, It e ) {
  std::string s("["); bool first = true;
  for ( ; b != e; ++b ) { if (!first) s += ','; first = false; s += J(*b); }
  return s + "]";
}
template <class T> std::string J( std::vector<T> const& v ) { return JL( v.begin(), v.end() ); }
struct obj {
  std::string s; obj() {}
  template <class T> obj& operator()( char const* k, T const& v )
    { if (!s.empty()) s += ','; s += '"'; s += k; s += "\":"; s += J(v); return *this; }
  obj& raw( char const* k, std::string const& v )
    { if (!s.empty()) s += ','; s += '"'; s += k; s += "\":"; s += v; return *this; }
  std::string str() const { return "{" + s + "}"; }
};
#define OP(name) static std::string op_##name( args_t const& a ); \
  static reg reg_##name( #name, op_##name ); \
  static std::string op_##name( args_t const& a )
#endif
