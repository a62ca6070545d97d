// C05: assertion reports of threads failing together, with a failing error stream, failing allocations, long messages.
#include "common.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include "shiva/common/CArray.hpp"

namespace c05
{
enum { REPORT, ABORT, ASSERT_FALSE, ASSERT_TRUE, BOUNDS, NKIND };
static const char * kinds[] = { "report-and-return", "report-and-abort", "assertion-fails", "assertion-holds", "index-out-of-range" };
static char g_long[3][5001];      // paths of 254, 700 and 5000 characters
static const char * files[] = { "a.hpp", "src/very/long/directory/name/that/goes/on/and/on/until/it/is/longer/than/most/paths/CArrayHelper.hpp", "x%sy%dz%n.cpp", "with space.cpp", "/abs/Q.hpp", "half%%half.cpp", "dir%20name/%d%%.hpp", "C:\\q\\n.cpp", "\xc3\xa9.hpp", g_long[0], g_long[1], g_long[2] };
constexpr int NFILES = 12;

// the message of an op: text of the given length, unique to the op, by one of several formats
static std::string text( int id, int64_t len, int64_t style )
{
  std::string s = "<" + std::to_string( id ) + ":";
  uint64_t x = static_cast< uint64_t >( id ) * 7919u + static_cast< uint64_t >( len );
  while( static_cast< int64_t >( s.size() ) < len - 1 )
  {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    char c = static_cast< char >( 'c' + ( x >> 33 ) % 20 );
    if( style == 1 && ( x >> 50 ) % 9 == 0 ) c = '%';
    if( style == 2 && ( x >> 50 ) % 15 == 0 ) c = '\n';
    s += c;
  }
  return s + ">";
}
static char * g_text[sim::MAXOPS];
static std::string * g_expect[sim::MAXOPS];
static bool g_begun[sim::MAXOPS], g_ended[sim::MAXOPS], g_termed[sim::MAXOPS];
static int g_line[sim::MAXOPS];
static int g_evals[sim::MAXOPS];
static int g_live, g_anyTerm;

static bool damaged( sim::Op const & o ) { return sim::faultOf( o, sim::F_IO ) || sim::faultOf( o, sim::F_ALLOC ); }

// the report of op o as it stands in the simulated output
static void checkReport( sim::Op const & o, bool aborted, bool whole )
{
  using sim::fail;
  size_t first = SIZE_MAX, last = 0;
  std::string own;
  for( size_t i = 0; i < sim::outSize(); ++i )
  {
    sim::OutByte const & b = sim::outAt( i );
    if( b.op != o.id ) continue;
    if( b.fd != 2 ) fail( "report-not-on-stderr", "op %d wrote to descriptor %d", o.id, b.fd );
    if( first == SIZE_MAX ) first = i;
    last = i;
    own += b.c;
  }
  if( damaged( o ) ) return;
  if( first == SIZE_MAX ) fail( "report-missing", "op %d (%s) left no report on standard error", o.id, kinds[o.kind] );
  for( size_t i = first; i <= last; ++i )
  {
    sim::OutByte const & b = sim::outAt( i );
    if( b.op != o.id && b.fd == 2 ) fail( "report-torn", "the report of op %d (thread %d) is interrupted by output of op %d (thread %d)", o.id, o.tid, b.op, b.tid );
  }
  if( !whole ) return;
  std::string head = own.substr( 0, 200 );
  size_t at = 0;
  auto need = [&]( std::string const & s, const char * what )
  {
    size_t p = own.find( s, at );
    if( p == std::string::npos ) fail( "report-incomplete", "the report of op %d lacks %s (%zu bytes, expected %.60s): %.120s", o.id, what, own.size(), s.c_str(), head.c_str() );
    at = p + s.size();
  };
  if( o.kind == BOUNDS ) need( "CArray", "the file" );
  else
  {
    const char * f = o.kind == ASSERT_FALSE ? __FILE__ : files[o.a[1]];
    need( f, "the file" );
    need( std::to_string( o.kind == ASSERT_FALSE ? g_line[o.id] : static_cast< int >( o.a[2] ) ), "the line" );
    need( *g_expect[o.id], "the complete formatted message" );
  }
  bool notice = own.find( "bort", at ) != std::string::npos;
  if( notice != aborted ) fail( aborted ? "abort-notice-missing" : "false-abort-notice", "op %d: the report %s an abort notice", o.id, notice ? "holds" : "lacks" );
}
}
using namespace c05;

namespace sim
{
const char * wlName() { return "c05"; }
int wlKinds() { return NKIND; }
const char * wlKindName( int k ) { return kinds[k]; }
const char * wlProbeName( int i )
{
  static const char * n[] = { "two failures in progress together", "three or more failures in progress together", "message longer than 4096 bytes", "output error during a report", "failure while another thread is dying", "allocation failure during a report", "the program ignores SIGABRT" };
  return i < 7 ? n[i] : nullptr;
}

// args: format, file, line, length, style, number
void wlGen( Rng & r, Plan & p, int )
{
  p.nthreads = static_cast< int >( r.range( 2, 5 ) );
  genPolicy( r, p );
  p.nparam = 1; p.param[0] = r.chance( 150 );
  bool faults = r.chance( 600 );
  int flavour = static_cast< int >( r.below( 3 ) );
  for( int t = 0; t < p.nthreads; ++t )
  {
    int n = static_cast< int >( r.range( 1, 4 ) );
    for( int j = 0; j < n; ++j )
    {
      int k = r.chance( flavour == 0 ? 900 : 600 ) ? REPORT : static_cast< int >( r.below( NKIND ) );
      Op & o = addOp( p, 1, t, k );
      addArg( o, r.below( 8 ) );
      addArg( o, r.chance( 100 ) ? r.range( 9, NFILES - 1 ) : r.below( 9 ) );
      static const int64_t lines[] = { 0, 1, 35, 1234, 99999, 2147483647, -1 };
      addArg( o, lines[r.below( 7 )] );
      int64_t len = r.range( 8, 80 );
      if( r.chance( 200 ) ) len = r.range( 200, 600 );
      if( r.chance( 150 ) ) { static const int64_t e[] = { 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 12000, 20000, 70000 }; len = e[r.below( 20 )] + r.range( -60, 20 ); }
      addArg( o, len );
      addArg( o, r.below( 3 ) );
      addArg( o, r.range( -1000000000000ll, 1000000000000ll ) );
      if( !faults ) continue;
      if( r.chance( 300 ) ) { static const int64_t m[] = { 0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 15, 16 }; addFault( o, F_IO, r.range( 1, 4 ), m[r.below( 14 )] ); }
      if( r.chance( 120 ) ) addFault( o, F_ALLOC, r.range( 1, 3 ), r.chance( 600 ) );
      if( r.chance( 150 ) ) addFault( o, F_STALL, r.below( 1000 ) );
    }
  }
}

void wlSetup( Plan const & p )
{
  g_termMode = 1;
  g_abortSignalReturns = p.nparam > 0 && p.param[0] != 0;
  static const int len[] = { 254, 700, 5000 };
  for( int k = 0; k < 3; ++k ) { for( int i = 0; i < len[k]; ++i ) g_long[k][i] = i % 9 == 8 ? '/' : static_cast< char >( 'g' + ( i * 7 + i / 26 ) % 17 ); std::memcpy( g_long[k] + len[k] - 4, ".hpp", 5 ); }
  for( int i = 0; i < p.nops; ++i )
  {
    Op const & o = p.ops[i];
    if( o.kind == ASSERT_TRUE || o.kind == BOUNDS ) continue;
    std::string s = text( o.id, o.a[3], o.a[4] );
    g_text[i] = static_cast< char * >( arenaAlloc( s.size() + 1 ) );
    std::memcpy( g_text[i], s.c_str(), s.size() + 1 );
    watchInput( g_text[i], s.size() + 1 );
    char b[64];
    std::string e;
    switch( o.a[0] )
    {
      case 0: case 1: case 2: e = s; break;
      case 3: std::snprintf( b, sizeof b, "%lld", static_cast< long long >( o.a[5] ) ); e = std::string( "index " ) + b + " in " + s + "!"; break;
      case 4: std::snprintf( b, sizeof b, "%.17g", static_cast< double >( o.a[5] ) / 7 ); e = s + " = " + b; break;
      case 5: std::snprintf( b, sizeof b, "%d%% of %s", static_cast< int >( o.a[5] % 100 ), "it" ); e = b + s; break;
      case 6: std::snprintf( b, sizeof b, "%c%5d%-6d|", 'Z', static_cast< int >( o.a[5] % 1000 ), static_cast< int >( o.id ) ); e = b + s + s; break;
      default: { std::string w = s; if( w.size() < 300 ) w.insert( 0, 300 - w.size(), ' ' ); e = w; }
    }
    g_expect[i] = new std::string( e );
  }
}

template< typename F >
static void withFormat( Op const & o, F && f )
{
  const char * s = g_text[o.id];
  long long v = static_cast< long long >( o.a[5] );
  switch( o.a[0] )
  {
    case 0: case 1: f( "%s", s ); break;
    case 2: if( o.a[4] == 1 ) f( "%s", s ); else f( s ); break;       // the message itself as the format, when it has no conversions
    case 3: f( "index %lld in %s!", v, s ); break;
    case 4: f( "%s = %.17g", s, static_cast< double >( v ) / 7 ); break;
    case 5: f( "%d%% of %s%s", static_cast< int >( v % 100 ), "it", s ); break;
    case 6: f( "%c%5d%-6d|%s%s", 'Z', static_cast< int >( v % 1000 ), static_cast< int >( o.id ), s, s ); break;
    default: f( "%*s", 300, s );
  }
}

void wlOp( Op const & o )
{
  if( o.kind != ASSERT_TRUE ) { ++g_live; if( g_live == 2 ) probe( 0 ); if( g_live >= 3 ) probe( 1 ); if( g_anyTerm ) probe( 4 ); }
  if( o.a[3] > 4096 && g_text[o.id] ) probe( 2 );
  if( faultOf( o, F_IO ) ) probe( 3 );
  if( faultOf( o, F_ALLOC ) ) probe( 5 );
  if( g_abortSignalReturns && o.kind != REPORT && o.kind != ASSERT_TRUE ) probe( 6 );
  g_begun[o.id] = true;
  size_t before = outSize();
  (void)before;
  bool threw = false;
  static shiva::CArrayNd< double, 3, 4 > arr;
  try
  {
    switch( o.kind )
    {
      case REPORT: withFormat( o, [&]( auto... a ) { Window w; shivaAssertionFailed( files[o.a[1]], static_cast< int >( o.a[2] ), false, a... ); } ); break;
      case ABORT: withFormat( o, [&]( auto... a ) { Window w; shivaAssertionFailed( files[o.a[1]], static_cast< int >( o.a[2] ), true, a... ); } ); break;
      case ASSERT_FALSE:
      {
        int id = o.id; const char * s = g_text[id];
        std::string e = s; *g_expect[id] = e;
        g_line[id] = __LINE__ + 1;
        Window w; SHIVA_ASSERT_MSG( g_evals[id]++ < 0, "%s", s );
        break;
      }
      case ASSERT_TRUE:
      {
        int id = o.id;
        Window w; SHIVA_ASSERT_MSG( g_evals[id]++ == 0, "condition %d", 5 );
        break;
      }
      default: { Window w; volatile int i = static_cast< int >( 3 + ( o.a[5] & 0xffff ) ); arr( i, 0 ) = 1; }
    }
  }
  catch( ... ) { leave(); threw = true; }
  if( o.kind != ASSERT_TRUE ) --g_live;
  if( threw ) fail( o.kind == REPORT ? "did-not-return" : "did-not-terminate", "%s: an exception came out of the failure report", kinds[o.kind] );
  if( o.kind == ASSERT_TRUE )
  {
    if( g_evals[o.id] != 1 ) fail( "condition-evaluations", "the condition of an assertion was evaluated %d times", g_evals[o.id] );
    for( size_t i = 0; i < outSize(); ++i ) if( outAt( i ).op == o.id ) fail( "false-report", "an assertion that holds wrote a report" );
    return;
  }
  if( o.kind != REPORT ) fail( "did-not-terminate", "%s: the call returned", kinds[o.kind] );
  g_ended[o.id] = true;
  checkReport( o, false, true );
}

void wlTerminated( Op const * o, int kind, int code )
{
  if( !o ) fail( "unexpected-termination", "the process was terminated outside any operation" );
  if( o->kind == REPORT || o->kind == ASSERT_TRUE ) fail( "terminated-unasked", "%s: the process was terminated", kinds[o->kind] );
  if( kind == T_EXIT && code == 0 ) fail( "exit-reports-success", "%s ended the process with a success status", kinds[o->kind] );
  if( ( o->kind == ASSERT_FALSE ) && g_evals[o->id] != 1 ) fail( "condition-evaluations", "the condition of an assertion was evaluated %d times", g_evals[o->id] );
  g_termed[o->id] = true; ++g_anyTerm; --g_live;
  checkReport( *o, true, true );
}

void wlFinish()
{
  // reports that were complete must still be in one piece once everything has been written
  for( int i = 0; i < plan().nops; ++i )
  {
    Op const & o = plan().ops[i];
    if( g_ended[i] ) checkReport( o, false, false );
    else if( g_termed[i] ) checkReport( o, true, false );
    else if( g_begun[i] && !g_anyTerm && o.kind != ASSERT_TRUE ) fail( "did-not-return", "op %d (%s) neither returned nor terminated the process", i, kinds[o.kind] );
  }
}
} // namespace sim
