#include "driver.h"
#include <ringing/litelib.h>
#include <ringing/mslib.h>
#include <ringing/cclib.h>
#include <ringing/xmllib.h>
#include <ringing/xmlout.h>
#include <ringing/methodset.h>
#include <ringing/method_stream.h>
#include <ringing/peal.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <sys/stat.h>
using namespace std; using namespace ringing;
namespace {
struct tmpfile_t {
  string name;
  tmpfile_t( string const& text, string const& suffix ) {
    char b[64]; snprintf( b, 64, "/tmp/verif-lib-%d", (int) getpid() ); name = b + suffix;
    ofstream f( name.c_str() ); f << text;
  }
  ~tmpfile_t() { unlink( name.c_str() ); }
};
string peal_j( peal const& p ) {
  vector<int> d; d.push_back(p.when().day); d.push_back(p.when().month); d.push_back(p.when().year);
  return "[[" + J(d) + "," + J(p.where()) + "]]";
}
template <class F> string str_facet( library_entry const& e ) {
  if ( !e.has_facet<F>() ) return "[]";
  ostringstream s; s << (typename F::type) e.get_facet<F>(); return "[" + J(s.str()) + "]";
}
template <class F> string peal_facet( library_entry const& e ) {
  return e.has_facet<F>() ? peal_j( e.get_facet<F>() ) : string("[]");
}
string J( library_entry const& e ) {
  obj o;
  o("b", e.bells())("name", e.name())("base", e.base_name());
  try { o("pn", e.pn()); } catch ( exception const& ) { o("pn", "error"); }
  try { method m = e.meth(); o("ok",true).raw("q", JL(m.begin(), m.end()))("full", e.fullname()); }
  catch ( exception const& ) { o("ok",false).raw("q", "[]")("full",""); }
  o.raw("payload", str_facet<litelib::payload>(e)).raw("ref", str_facet<cclib::ref>(e)).raw("rw", str_facet<rw_ref>(e))
   .raw("ccc", str_facet<cc_collection_id>(e)).raw("tower", peal_facet<first_tower_peal>(e)).raw("hand", peal_facet<first_hand_peal>(e));
  return o.str();
}
string list_j( library const& l ) {
  string s("["); bool first = true; int n = 0;
  for ( library::const_iterator i=l.begin(), e=l.end(); i!=e && ++n < 2000; ++i ) { if (!first) s += ','; first = false; s += J(*i); }
  return s + "]";
}
struct lib_holder {
  string text; tmpfile_t f; istringstream is; library l;
  lib_holder( string const& kind, int b, int flags, string const& text )
    : text(text), f( text, kind == "ms" || kind == "auto" ? "8.txt" : ".txt" ), is(text)
  {
    if ( kind == "lite" ) l = litelib( b, f.name, flags );
    else if ( kind == "lites" ) l = litelib( b, is, flags );
    else if ( kind == "ms" ) l = mslib( f.name );
    else if ( kind == "cc" ) l = cclib( f.name );
    else if ( kind == "xml" ) l = xmllib( xmllib::filename, f.name );
    else if ( kind == "auto" ) {
      static bool done = false;
      if (!done) { cclib::registerlib(); xmllib::registerlib(); mslib::registerlib(); done = true; }
      l = library( f.name );
    }
    else throw logic_error("kind");
  }
};
methodset* ms = 0;
void reset_l() { delete ms; ms = new methodset; }
resetter rl(reset_l);
}
OP(l_read) {   // kind, bells, flags, twice, text
  lib_holder h( a[0], I(a[1]), I(a[2]), a[4] );
  if ( !h.l.good() ) return "\"bad\"";
  string s = list_j( h.l );
  if ( I(a[3]) && a[0] != "lites" && list_j( h.l ) != s ) return "\"differs\"";
  return s;
}
OP(l_find) {   // kind, bells, flags, title, method, stage, name, text
  lib_holder h( a[0], I(a[1]), I(a[2]), a[7] );
  library_entry e = h.l.find( a[3] ), f = h.l.find( M(a[4]) );
  obj o;
  o.raw("t", e.null() ? string("[]") : "[" + J(e) + "]").raw("m", f.null() ? string("[]") : "[" + J(f) + "]");
  try { method m = h.l.load( a[6], I(a[5]) ); o.raw("l", "[" + obj().raw("q", JL(m.begin(), m.end()))("name", m.name()).str() + "]"); }
  catch ( library_base::invalid_name const& ) { o.raw("l", "[]"); }
  return o.str();
}
OP(l_path) {   // the folders that have the file (0: the current one), the folders of the path, absolute?, stage, text before the entry's number, and after
  vector<int> have = ints(a[0]), path = ints(a[1]); char d[] = "/tmp/verif-path-XXXXXX", cwd[4096];
  if ( !mkdtemp(d) || !getcwd( cwd, 4096 ) ) throw logic_error("scratch");
  string D(d), p, r; vector<string> made;
  for ( int i=0; i<6; ++i ) { string n = D + "/" + char('0'+i); mkdir( n.c_str(), 0755 ); }
  for ( size_t i=0; i<have.size(); ++i ) {
    string n = D + "/" + char('0'+have[i]) + "/m8.txt"; made.push_back(n);
    ofstream f( n.c_str() ); f << a[4] << have[i] << a[5];
  }
  for ( size_t i=0; i<path.size(); ++i ) { if (i) p += ':'; p += D + "/" + char('0'+path[i]); }
  if ( chdir( (D + "/0").c_str() ) ) throw logic_error("chdir");
  { lib_holder h( "auto", 0, 0, "" );
    if ( I(a[3]) == 0 ) library::setpath(p);
    else { unsetenv("METHLIBPATH"); unsetenv("METHOD_LIBRARY_PATH"); library::setpath("/nowhere");
           setenv( I(a[3]) == 1 ? "METHLIBPATH" : "METHOD_LIBRARY_PATH", p.c_str(), 1 ); if ( I(a[3]) == 3 ) setenv( "METHLIBPATH", "/nowhere", 1 ); library::setpath_from_env(); }
    library l( ( I(a[2]) ? D + "/" + char('0'+I(a[2])) + "/" : string() ) + "m8.txt" );
    r = l.good() ? "found" : "none";
    if ( l.good() && l.begin() != l.end() ) r = l.begin()->name(); }
  library::setpath(""); unsetenv("METHLIBPATH"); unsetenv("METHOD_LIBRARY_PATH");
  int bad = chdir(cwd);
  for ( size_t i=0; i<made.size(); ++i ) unlink( made[i].c_str() );
  for ( int i=0; i<6; ++i ) rmdir( (D + "/" + char('0'+i)).c_str() );
  rmdir(d);
  return J(r);
}
static library_facet_id facet_id( int k ) {
  switch (k) { case 0: return litelib::payload::id; case 1: return first_tower_peal::id; case 2: return first_hand_peal::id;
    case 3: return rw_ref::id; default: return cc_collection_id::id; }
}
OP(ms_new) { delete ms; ms = new methodset; vector<int> f = ints(a[0]); for ( size_t i=0; i<f.size(); ++i ) ms->store_facet( facet_id(f[i]) ); return J(ms->size()); }
OP(ms_add) { method m = M(a[0]); m.name(a[1]); ms->append(m); return J(ms->size()); }
OP(ms_lib) { lib_holder h( a[0], I(a[1]), I(a[2]), a[3] ); size_t n = ms->append( h.l.begin(), h.l.end() ); return obj()("n",n)("size",ms->size()).str(); }
OP(ms_clear) { ms->clear(); return J(ms->size()); }
OP(ms_list) { return list_j(*ms); }
OP(ms_find) {   // method, title, name, stage
  library_entry e = ms->find( M(a[0]) ), f = ms->find( a[1] );
  obj o; o.raw("m", e.null() ? string("[]") : "[" + J(e) + "]").raw("t", f.null() ? string("[]") : "[" + J(f) + "]");
  try { method m = ms->load( a[2], I(a[3]) ); o.raw("l", "[" + obj().raw("q", JL(m.begin(), m.end()))("name", m.name()).str() + "]"); }
  catch ( library_base::invalid_name const& ) { o.raw("l", "[]"); }
  return o.str();
}
OP(ms_facet) {   // method, kind, text, day, month, year
  library_entry e = ms->find( M(a[0]) );
  if ( e.null() ) return "\"none\"";
  peal p( peal::date( I(a[3]), I(a[4]), I(a[5]) ), a[2] );
  switch ( I(a[1]) ) {
    case 0: e.set_facet<litelib::payload>(a[2]); break;
    case 1: e.set_facet<first_tower_peal>(p); break;
    case 2: e.set_facet<first_hand_peal>(p); break;
    case 3: e.set_facet<rw_ref>(a[2]); break;
    default: e.set_facet<cc_collection_id>(a[2]);
  }
  return J(e);
}
static string slurp( string const& n ) { ifstream f( n.c_str() ); ostringstream s; s << f.rdbuf(); return s.str(); }
OP(ms_xml) {   // number of outputs, flush or destroy: the text of each file, and what each reads back as
  int k = I(a[0]); vector<string> names; string t("["), b("[");
  {
    multilibout out;
    for ( int i=0; i<k; ++i ) {
      char x[64]; snprintf( x, 64, "/tmp/verif-lib-%d-%d.xml", (int) getpid(), i ); names.push_back(x);
      out.add( new xmlout(x) );
    }
    for ( methodset::const_iterator i=ms->begin(), e=ms->end(); i!=e; ++i ) out.append(*i);
    if ( I(a[1]) ) out.flush();
  }
  for ( int i=0; i<k; ++i ) {
    if (i) t += ',', b += ',';
    t += J( slurp(names[i]) );
    try { b += list_j( xmllib( xmllib::filename, names[i] ) ); } catch ( exception const& ) { b += "[{\"error\":1}]"; }
    unlink( names[i].c_str() );
  }
  return obj().raw("text", t + "]").raw("back", b + "]").str();
}
OP(ms_stream) {  // with bells, form
  ostringstream s; streambuf* old = cout.rdbuf( s.rdbuf() );
  try {
    method_stream o( I(a[0]), (method_stream::name_form) I(a[1]) );
    for ( methodset::const_iterator i=ms->begin(), e=ms->end(); i!=e; ++i ) o.append(*i);
  } catch (...) { cout.rdbuf(old); throw; }
  cout.rdbuf(old);
  return J(s.str());
}
