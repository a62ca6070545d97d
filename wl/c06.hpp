#pragma once
// C06: iteration over sequences, nested sequences, index packs, multi-index ranges and support points,
// with callbacks that throw, block, re-enter and are interrupted.
#include "common.hpp"
#include "exc.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"

namespace c06
{
using namespace shiva;

// progress of one iteration; the caller's function reports here
struct Ctx
{
  sim::Op const * o;
  const char * name;
  int rank, dims[6], start[6];
  int64_t total;           // visits expected
  int64_t visits;
  int64_t throwAt, throwType, blockAt, nestAt;
  int nestOp;
  bool threw;
};

inline void expected( Ctx const & c, int64_t k, int * idx )
{
  for( int d = c.rank - 1; d >= 0; --d ) { int n = c.dims[d] - c.start[d]; idx[d] = c.start[d] + static_cast< int >( k % n ); k /= n; }
}

// one call of the caller's function: what it was given now, and again after other threads had a chance to run
template< typename READ >
inline void visit( Ctx & c, READ && read, int lin = -1 )
{
  int got[6]{}, again[6]{};
  read( got );
  int64_t k = c.visits++;
  sim::leave();
  if( c.threw ) sim::fail( "visit-after-exception", "%s: the function was called again after it had thrown at call %lld", c.name, static_cast< long long >( c.throwAt ) );
  if( k >= c.total ) sim::fail( "too-many-visits", "%s: call %lld of %lld", c.name, static_cast< long long >( k + 1 ), static_cast< long long >( c.total ) );
  int want[6]{};
  expected( c, k, want );
  auto cmp = [&]( const int * g, const char * when )
  {
    for( int d = 0; d < c.rank; ++d ) if( g[d] != want[d] )
      sim::fail( "wrong-index", "%s: call %lld %s was given (%d,%d,%d,%d,%d,%d), expected (%d,%d,%d,%d,%d,%d) in %d dimensions", c.name, static_cast< long long >( k + 1 ), when, g[0], g[1], g[2], g[3], g[4], g[5],
                 want[0], want[1], want[2], want[3], want[4], want[5], c.rank );
  };
  cmp( got, "" );
  if( lin >= 0 )
  {
    int w = 0;
    for( int d = 0; d < c.rank; ++d ) w = w * c.dims[d] + want[d];
    if( lin != w ) sim::fail( "wrong-linear-index", "%s: call %lld: linear index %d, expected %d", c.name, static_cast< long long >( k + 1 ), lin, w );
  }
  sim::enter();
  sim::yieldPoint( "callback" );
  bool did = false;
  if( k + 1 == c.blockAt ) { sim::faultFired( sim::F_BLOCK ); sim::sleepPoint( 1 + k * 3 ); did = true; }
  if( k + 1 == c.nestAt ) { sim::faultFired( sim::F_NEST ); sim::runNested( c.nestOp ); did = true; }
  if( did ) sim::yieldPoint( "callback" );
  read( again );
  sim::leave(); cmp( again, "(read again)" ); sim::enter();
  if( k + 1 == c.throwAt ) { sim::faultFired( sim::F_THROW ); c.threw = true; sim::leave(); exc::raise( c.throwType, c.o->id, k + 1 ); }
}

// the caller's functions: as function parameters or as template parameters, with state of their own
struct ByArg
{
  Ctx * c; int64_t calls = 0;
  template< typename ... I > int64_t operator()( I const ... i ) { ++calls; visit( *c, [&]( int * g ) { int n = 0; ( ( g[n++] = i ), ... ); } ); return 1000 + calls; }
};
struct ByTemplate
{
  Ctx * c; int64_t calls = 0;
  template< int I > int64_t operator()() { ++calls; visit( *c, []( int * g ) { g[0] = I; } ); return 1000 + calls; }
};
struct ByConst
{
  Ctx * c;
  template< typename I > void operator()( I const & i ) const { visit( *c, [&]( int * g ) { g[0] = i; } ); }
};
struct ByRange
{
  Ctx * c; int64_t calls = 0;
  template< typename M > void operator()( M const & m )
  {
    ++calls;
    int l = linearIndex( m );
    visit( *c, [&]( int * g ) { for( int d = 0; d < M::NUM_INDICES; ++d ) g[d] = m.data[d]; }, l );
  }
};
struct ByRangeCopy
{
  Ctx * c; int64_t calls = 0;
  template< typename M > void operator()( M m ) { ++calls; visit( *c, [&]( int * g ) { for( int d = 0; d < M::NUM_INDICES; ++d ) g[d] = m.data[d]; }, linearIndex( m ) ); }
};

// functions returning something that could be taken for an order to stop, or for a failure
inline bool odd( int64_t k ) { return ( k * 0x9e3779b97f4a7c15ull >> 61 & 1 ) != 0; }
struct Flag { bool ok; explicit operator bool() const { return ok; } };
template< int WHAT, typename R > R answer( int64_t k )
{
  if constexpr ( WHAT == 0 ) return odd( k );
  else if constexpr ( WHAT == 1 ) return odd( k ) ? static_cast< int >( k ) : 0;
  else if constexpr ( WHAT == 2 ) return odd( k ) ? "" : nullptr;
  else return Flag{ odd( k ) };
}
template< int WHAT > using AnswerOf = std::conditional_t< WHAT == 0, bool, std::conditional_t< WHAT == 1, int, std::conditional_t< WHAT == 2, const char *, Flag > > >;
inline bool same( Flag a, Flag b ) { return a.ok == b.ok; }
template< typename A > bool same( A a, A b ) { return a == b; }
template< int WHAT > struct Answering
{
  Ctx * c; int64_t calls = 0;
  template< typename ... I > AnswerOf< WHAT > operator()( I const ... i )
  {
    ++calls; visit( *c, [&]( int * g ) { int n = 0; ( ( g[n++] = i ), ... ); } ); return answer< WHAT, AnswerOf< WHAT > >( calls );
  }
};
template< int WHAT > struct AnsweringTemplate
{
  Ctx * c; int64_t calls = 0;
  template< int I > AnswerOf< WHAT > operator()() { ++calls; visit( *c, []( int * g ) { g[0] = I; } ); return answer< WHAT, AnswerOf< WHAT > >( calls ); }
};
template< int WHAT > struct AnsweringRange
{
  Ctx * c; int64_t calls = 0;
  template< typename M > AnswerOf< WHAT > operator()( M const & m )
  {
    ++calls; visit( *c, [&]( int * g ) { for( int d = 0; d < M::NUM_INDICES; ++d ) g[d] = m.data[d]; }, linearIndex( m ) ); return answer< WHAT, AnswerOf< WHAT > >( calls );
  }
};

// functions handed over as temporaries: they own something that is gone once they have been moved from or destroyed
struct Token
{
  Ctx * c; uint64_t * alive;
  explicit Token( Ctx * x ): c( x ), alive( new uint64_t( 0x600d600d600d600dull ) ) {}
  Token( Token && o ) noexcept: c( o.c ), alive( o.alive ) { o.alive = nullptr; }
  Token( Token const & o ): c( o.c ), alive( o.alive ? new uint64_t( *o.alive ) : nullptr ) {}
  Token & operator=( Token const & ) = delete;
  ~Token() { if( alive ) *alive = 0; delete alive; alive = nullptr; }
  void check() const
  {
    bool ok = alive && *alive == 0x600d600d600d600dull;
    if( !ok ) { sim::leave(); sim::fail( "function-moved", "%s: call %lld used the function object after it had been moved from or destroyed", c->name, static_cast< long long >( c->visits + 1 ) ); }
  }
};
struct Owner
{
  Token t;
  template< typename ... I > void operator()( I const ... i ) { t.check(); visit( *t.c, [&]( int * g ) { int n = 0; ( ( g[n++] = i ), ... ); } ); t.check(); }
};
struct RangeOwner
{
  Token t;
  template< typename M > void operator()( M const & m ) { t.check(); visit( *t.c, [&]( int * g ) { for( int d = 0; d < M::NUM_INDICES; ++d ) g[d] = m.data[d]; }, linearIndex( m ) ); t.check(); }
};

struct Case { const char * name; int kind; int rank; int dims[6]; bool startable; void ( *run )( Ctx &, int form ); };
enum { SEQ, PACK, NESTED, RANGE, SUPPORT, LINEAR, NKIND };
inline const char * kinds[] = { "sequence", "index-pack", "nested-sequence", "multi-index-range", "support-loop", "linear-index" };
inline std::vector< Case > & cases() { static std::vector< Case > v; return v; }

inline void calls( Ctx & c, int64_t n ) { if( n != c.visits ) { sim::leave(); sim::fail( "function-copied", "%s: the caller's function object counted %lld calls, %lld were made", c.name, static_cast< long long >( n ), static_cast< long long >( c.visits ) ); } }
template< typename F, typename RUN >
inline void counted( Ctx & c, F & f, RUN && run )
{
  try { run(); } catch( ... ) { calls( c, f.calls ); throw; }
  calls( c, f.calls );
}
inline void result( Ctx & c, int64_t r ) { if( r != 1000 + c.total ) { sim::leave(); sim::fail( "wrong-result", "%s: returned %lld, the last call returned %lld", c.name, static_cast< long long >( r ), static_cast< long long >( 1000 + c.total ) ); } }

// an iteration that returns nothing has no result to judge
template< typename F > void judged( Ctx & c, F && f ) { if constexpr ( std::is_void_v< decltype( f() ) > ) f(); else result( c, f() ); }

// the same with a function that answers: an iteration that returns an answer of that type returns the last one
template< int WHAT, typename F, typename RUN > void answered( Ctx & c, F & f, RUN && run )
{
  using R = decltype( run() );
  counted( c, f, [&]
  {
    if constexpr ( std::is_same_v< R, AnswerOf< WHAT > > )
    {
      R r = run();
      if( c.total > 0 && !same( r, answer< WHAT, R >( c.total ) ) && c.visits == c.total ) { sim::leave(); sim::fail( "wrong-result", "%s: the result is not what the last call returned", c.name ); }
    }
    else run();
  } );
}
template< typename RUN > void eachAnswer( int form, RUN && run )
{
  switch( form & 3 )
  {
    case 0: run( std::integral_constant< int, 0 >{} ); break;
    case 1: run( std::integral_constant< int, 1 >{} ); break;
    case 2: run( std::integral_constant< int, 2 >{} ); break;
    default: run( std::integral_constant< int, 3 >{} );
  }
}
template< int N > struct Seq
{
  static void run( Ctx & c, int form )
  {
    if( form >= 12 )
    {
      eachAnswer( form, [&]( auto w )
      {
        constexpr int W = decltype( w )::value;
        if( form & 4 ) { Answering< W > f{ &c }; answered< W >( c, f, [&]{ return forSequence< N >( f ); } ); }
        else { AnsweringTemplate< W > f{ &c }; answered< W >( c, f, [&]{ return forSequence< N >( f ); } ); }
      } );
      return;
    }
    switch( form % 5 )
    {
      case 0: { ByArg f{ &c }; counted( c, f, [&]{ if constexpr ( N > 0 ) judged( c, [&]{ return forSequence< N >( f ); } ); else forSequence< N >( f ); } ); break; }
      case 1: { ByTemplate f{ &c }; counted( c, f, [&]{ if constexpr ( N > 0 ) judged( c, [&]{ return forSequence< N >( f ); } ); else forSequence< N >( f ); } ); break; }
      case 2: { const ByConst f{ &c }; forSequence< N >( f ); break; }
      case 3: forSequence< N >( Owner{ Token( &c ) } ); break;
      default: forSequence< N >( [&]( auto i ) { visit( c, [&]( int * g ) { g[0] = i; } ); } );
    }
  }
};
// an index pack: one call with all the indices
inline void packVisit( Ctx & c, std::initializer_list< int > ids, int n )
{
  sim::leave();
  int k = 0;
  if( static_cast< int >( ids.size() ) != n ) sim::fail( "wrong-index", "%s: the function was given %zu indices, expected %d", c.name, ids.size(), n );
  for( int i : ids ) { if( i != k ) sim::fail( "wrong-index", "%s: index %d of the pack is %d", c.name, k, i ); ++k; }
  sim::enter();
  visit( c, []( int * g ) { g[0] = 0; } );
}
template< int N > struct PackTmpl
{
  Ctx * c; int64_t calls = 0;
  template< int ... I > int64_t operator()( sim::Op const & a )
  {
    ++calls;
    if( a.id != c->o->id ) { sim::leave(); sim::fail( "wrong-argument", "%s: the argument handed through holds another value", c->name ); }
    packVisit( *c, { I... }, N ); return 1001;
  }
};
struct Held
{
  int64_t v;
  explicit Held( int64_t x ): v( x ) {}
  Held( Held const & o ): v( o.v ) {}
  Held( Held && o ): v( o.v ) { o.v = -1; }
};
template< int N > struct Pack
{
  static void run( Ctx & c, int form )
  {
    if( form % 5 == 4 )
    {
      // an argument given by name stays the caller's
      Held h( c.o->id );
      auto f = [&]( auto a, auto ... i ) -> int64_t
      {
        if( a.v != c.o->id ) { sim::leave(); sim::fail( "wrong-argument", "%s: the argument handed through holds another value", c.name ); }
        packVisit( c, { static_cast< int >( i )... }, N );
        return 1001;
      };
      judged( c, [&]{ return executeSequence< N >( f, h ); } );
      if( h.v != c.o->id ) { sim::leave(); sim::fail( "wrong-argument", "%s: the caller's argument was emptied", c.name ); }
      return;
    }
    switch( form % 3 )
    {
      case 0: { PackTmpl< N > f{ &c }; counted( c, f, [&]{ judged( c, [&]{ return executeSequence< N >( f, *c.o ); } ); } ); break; }
      case 1:
      {
        auto f = [&]( auto ... i ) -> int64_t { packVisit( c, { static_cast< int >( i )... }, N ); return 1001; };
        judged( c, [&]{ return executeSequence< N >( f ); } );
        break;
      }
      default: judged( c, [&]{ return executeSequence< N >( [&]( auto const ... i ) -> int64_t { packVisit( c, { static_cast< int >( decltype( i )::value )... }, N ); return 1001; } ); } );
    }
  }
};
template< int ... N > struct Nested
{
  static void run( Ctx & c, int form )
  {
    if( form >= 12 )
    {
      eachAnswer( form, [&]( auto w )
      {
        constexpr int W = decltype( w )::value;
        Answering< W > f{ &c };
        if( form & 4 ) answered< W >( c, f, [&]{ return forNestedSequence< N... >( f ); } );
        else answered< W >( c, f, [&]{ return forNestedSequence( std::integer_sequence< int, N... >{}, f ); } );
      } );
      return;
    }
    switch( form % 4 )
    {
      case 0: { ByArg f{ &c }; counted( c, f, [&]{ forNestedSequence< N... >( f ); } ); break; }
      case 1: { ByArg f{ &c }; counted( c, f, [&]{ forNestedSequence( std::integer_sequence< int, N... >{}, f ); } ); break; }
      case 2: if( form & 8 ) forNestedSequence< N... >( Owner{ Token( &c ) } ); else forNestedSequence( std::integer_sequence< int, N... >{}, Owner{ Token( &c ) } ); break;
      default: forNestedSequence< N... >( [&]( auto const ... i ) { visit( c, [&]( int * g ) { int n = 0; ( ( g[n++] = decltype( i )::value ), ... ); } ); } );
    }
  }
};
template< int ... N > struct Range
{
  static void run( Ctx & c, int form )
  {
    MultiIndexRangeI< N... > m;
    bool given = form % 2;          // starting indices of 0 need not be given
    for( int d = 0; d < c.rank; ++d ) given = given || c.start[d];
    if( given ) for( int d = 0; d < c.rank; ++d ) m.data[d] = c.start[d];
    if( form >= 12 )
    {
      eachAnswer( form, [&]( auto w ) { constexpr int W = decltype( w )::value; AnsweringRange< W > f{ &c }; answered< W >( c, f, [&]{ return forRange( m, f ); } ); } );
      return;
    }
    switch( form % 4 )
    {
      case 0: { ByRange f{ &c }; counted( c, f, [&]{ forRange( m, f ); } ); break; }
      case 1: { ByRangeCopy f{ &c }; counted( c, f, [&]{ forRange( m, f ); } ); break; }
      case 2: forRange( m, RangeOwner{ Token( &c ) } ); break;
      default: forRange( m, [&]( auto const & i ) { visit( c, [&]( int * g ) { for( int d = 0; d < c.rank; ++d ) g[d] = i.data[d]; }, linearIndex( i ) ); } );
    }
  }
};
template< typename B, B ... N > struct Linear
{
  static void run( Ctx & c, int form )
  {
    MultiIndexRange< B, N... > m;
    constexpr B dims[] = { N... };
    bool given = form % 3 == 0;
    for( int d = 0; d < c.rank; ++d ) given = given || c.start[d];
    if( given ) for( int d = 0; d < c.rank; ++d ) m.data[d] = static_cast< B >( c.start[d] );
    int64_t want = 0;
    for( int d = 0; d < c.rank; ++d ) want = want * static_cast< int64_t >( dims[d] ) + c.start[d];
    MultiIndexRange< B, N... > const copy = m;
    int64_t got = static_cast< int64_t >( form % 2 ? linearIndex( copy ) : linearIndex( m ) );
    sim::leave();
    if( got != want ) sim::fail( "wrong-linear-index", "%s: linear index %lld, expected %lld", c.name, static_cast< long long >( got ), static_cast< long long >( want ) );
    for( int d = 0; d < c.rank; ++d ) if( m.data[d] != static_cast< B >( c.start[d] ) ) sim::fail( "wrong-index", "%s: asking for the linear index changed index %d", c.name, d );
    sim::enter();
  }
};
template< typename T > struct Support
{
  static void run( Ctx & c, int form )
  {
    if( form >= 12 )
      eachAnswer( form, [&]( auto w ) { constexpr int W = decltype( w )::value; Answering< W > f{ &c }; answered< W >( c, f, [&]{ return T::supportLoop( f ); } ); } );
    else if( form % 3 == 2 ) T::supportLoop( Owner{ Token( &c ) } );
    else if( form % 3 ) { ByArg f{ &c }; counted( c, f, [&]{ T::supportLoop( f ); } ); }
    else T::supportLoop( [&]( auto const ... i ) { visit( c, [&]( int * g ) { int n = 0; ( ( g[n++] = decltype( i )::value ), ... ); } ); } );
  }
};
using L1 = functions::LagrangeBasis< double, 1, EqualSpacing >;
using L2 = functions::LagrangeBasis< double, 2, GaussLobattoSpacing >;
using L3 = functions::LagrangeBasis< double, 3, GaussLobattoSpacing >;
using L4 = functions::LagrangeBasis< float, 4, EqualSpacing >;
template< typename ... B > using BP = functions::BasisProduct< double, B... >;
template< typename ... B > using IS = geometry::InterpolatedShape< double, geometry::NCube< double, sizeof...( B ), -1, 1, 2 >, B... >;

inline void add( const char * n, int kind, std::initializer_list< int > d, bool st, void ( *f )( Ctx &, int ) )
{
  Case c{ n, kind, static_cast< int >( d.size() ), { 1, 1, 1, 1, 1, 1 }, st, f };
  int k = 0; for( int x : d ) c.dims[k++] = x;
  cases().push_back( c );
}
void reg1(); void reg2(); void reg3(); void reg4(); void reg5(); void reg6(); void reg7(); void reg8();
}
