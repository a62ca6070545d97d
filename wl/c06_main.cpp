// C06: generation, judging; the cases are compiled in parts (c06_1.cpp ...)
#include "c06.hpp"
#include <algorithm>

namespace c06
{
static void init()
{
  if( !cases().empty() ) return;
  reg1(); reg2(); reg3(); reg4(); reg5(); reg6(); reg7(); reg8();
  // neighbours in the list are often used together
  std::stable_sort( cases().begin(), cases().end(), []( Case const & a, Case const & b ) { return a.kind < b.kind; } );
}
static int64_t totalOf( Case const & k, const int * start ) { if( k.kind == LINEAR ) return 0; int64_t t = 1; for( int d = 0; d < k.rank; ++d ) { int n = k.dims[d] - start[d]; t *= n > 0 ? n : 0; } return t; }
static bool g_done[sim::MAXOPS];
}
using namespace c06;

namespace sim
{
const char * wlName() { return "c06"; }
int wlKinds() { return NKIND; }
const char * wlKindName( int k ) { return kinds[k]; }
const char * wlProbeName( int i )
{
  static const char * n[] = { "function throws at the first visit", "function throws at the last visit", "function throws in the middle", "iteration re-entered from its own callback", "range with non-zero starting indices",
                              "empty iteration space", "same iteration running in two threads", "iteration after one that threw" };
  return i < 8 ? n[i] : nullptr;
}

// args: case, form, start indices
void wlGen( Rng & r, Plan & p, int )
{
  init();
  int nc = static_cast< int >( cases().size() );
  p.nthreads = static_cast< int >( r.range( 2, 4 ) );
  genPolicy( r, p );
  int base = static_cast< int >( r.below( nc ) );
  bool faults = r.chance( 800 );
  auto mk = [&]( int phase, int tid ) -> Op &
  {
    int c = r.chance( 400 ) ? base : r.chance( 500 ) ? static_cast< int >( ( base + r.range( -3, 3 ) + nc ) % nc ) : static_cast< int >( r.below( nc ) );
    Case const & k = cases()[static_cast< size_t >( c )];
    Op & o = addOp( p, phase, tid, k.kind );
    addArg( o, c ); addArg( o, r.below( 20 ) );
    int room = 40;
    for( int d = 0; d < 6; ++d )
    {
      if( !k.startable || d >= k.rank ) { addArg( o, 0 ); continue; }
      if( k.kind == LINEAR ) { addArg( o, r.chance( 200 ) ? k.dims[d] - 1 : r.chance( 100 ) ? 0 : r.range( 0, k.dims[d] - 1 ) ); continue; }
      if( k.dims[d] > 20 ) { int left = static_cast< int >( r.range( 1, room ) ); room = std::max( 1, room / left ); addArg( o, k.dims[d] - left ); continue; }
      addArg( o, r.chance( 350 ) ? r.range( 0, k.dims[d] + ( r.chance( 100 ) ? 1 : -1 ) ) : 0 );
    }
    return o;
  };
  int pre = static_cast< int >( r.range( 0, 2 ) );
  for( int i = 0; i < pre; ++i ) mk( 0, 0 );
  int per = static_cast< int >( r.range( 1, 4 ) );
  for( int t = 0; t < p.nthreads; ++t ) for( int j = 0; j < per; ++j )
  {
    int id = mk( 1, t ).id;
    if( !faults ) continue;
    int st[6]; for( int d = 0; d < 6; ++d ) st[d] = static_cast< int >( p.ops[id].a[2 + d] );
    int64_t tot = totalOf( cases()[static_cast< size_t >( p.ops[id].a[0] )], st );
    auto at = [&]() -> int64_t { return tot < 1 ? 1 : r.chance( 200 ) ? 1 : r.chance( 200 ) ? tot : r.range( 1, tot ); };
    if( r.chance( 250 ) ) addFault( p.ops[id], F_THROW, at(), r.below( exc::NTYPES ) );
    if( r.chance( 200 ) ) addFault( p.ops[id], F_BLOCK, at() );
    if( r.chance( 250 ) && p.nops + 2 < MAXOPS )
    {
      int n = mk( -1, t ).id;
      if( r.chance( 300 ) ) { p.ops[n].a[0] = p.ops[id].a[0]; p.ops[n].kind = p.ops[id].kind; if( r.chance( 500 ) ) for( int d = 0; d < 8; ++d ) p.ops[n].a[d] = p.ops[id].a[d]; else if( cases()[static_cast< size_t >( p.ops[id].a[0] )].dims[0] <= 20 && cases()[static_cast< size_t >( p.ops[id].a[0] )].rank != 2 ) for( int d = 2; d < 8; ++d ) p.ops[n].a[d] = 0; else for( int d = 2; d < 8; ++d ) p.ops[n].a[d] = p.ops[id].a[d]; }
      if( r.chance( 200 ) ) addFault( p.ops[n], F_THROW, r.range( 1, 4 ), r.below( exc::NTYPES ) );
      if( r.chance( 500 ) ) addFault( p.ops[id], F_NEST, at(), n ); else addFault( p.ops[id], F_INTERRUPT, r.below( 1000 ), n );
    }
    if( r.chance( 80 ) ) addFault( p.ops[id], F_STALL, r.below( 1000 ) );
    if( r.chance( 40 ) ) addFault( p.ops[id], F_ALLOC, r.range( 1, 3 ) );
  }
  int post = static_cast< int >( r.range( 0, 2 ) );
  for( int i = 0; i < post; ++i ) mk( 2, static_cast< int >( r.below( p.nthreads ) ) );
}

void wlSetup( Plan const & ) { init(); g_termMode = 0; }

void wlOp( Op const & o )
{
  Case const & k = cases()[static_cast< size_t >( o.a[0] )];
  for( int attempt = 0; ; ++attempt )
  {
    Ctx c{};
    c.o = &o; c.name = k.name; c.rank = k.rank;
    bool nz = false;
    for( int d = 0; d < 6; ++d ) { c.dims[d] = k.dims[d]; c.start[d] = static_cast< int >( o.a[2 + d] ); nz |= c.start[d] != 0; }
    c.total = totalOf( k, c.start );
    if( nz ) probe( 4 );
    if( !c.total ) probe( 5 );
    const FaultSpec * ft = faultOf( o, F_THROW ), * fb = faultOf( o, F_BLOCK ), * fn = faultOf( o, F_NEST );
    c.throwAt = ft ? ft->p0 : 0; c.throwType = ft ? ft->p1 : 0; c.blockAt = fb ? fb->p0 : 0; c.nestAt = fn ? fn->p0 : 0; c.nestOp = fn ? static_cast< int >( fn->p1 ) : -1;
    bool out = false, noMem = false;
    try
    {
      Window w;
      k.run( c, static_cast< int >( o.a[1] ) );
    }
    catch( ... )
    {
      leave();
      exc::Tag t{};
      int type = exc::classify( t );
      if( type == exc::OTHER ) fail( "wrong-exception", "%s: an exception of another type came out", k.name );
      if( type == exc::NOMEM ) noMem = true;
      else
      {
        if( t.op != o.id || t.visit != c.throwAt || t.tag != 0.5 * o.id ) fail( "wrong-exception", "%s: the exception that came out was thrown by op %d at call %lld", k.name, t.op, static_cast< long long >( t.visit ) );
        if( type != c.throwType % exc::NTYPES ) fail( "wrong-exception", "%s: an exception of another type came out", k.name );
        out = true;
      }
    }
    if( noMem )
    {
      if( attempt || !faultOf( o, F_ALLOC ) ) fail( "wrong-exception", "%s: bad_alloc without an allocation failure", k.name );
      if( c.threw ) fail( "wrong-exception", "%s: bad_alloc instead of the function's exception", k.name );
      continue;
    }
    if( c.threw && !out ) fail( "exception-lost", "%s: the function threw at call %lld and the iteration returned normally", k.name, static_cast< long long >( c.throwAt ) );
    if( out && !c.threw ) fail( "wrong-exception", "%s: an exception came out that the function did not throw", k.name );
    int64_t want = c.throwAt && c.throwAt <= c.total ? c.throwAt : c.total;
    if( c.visits != want ) fail( "missed-visits", "%s: the function was called %lld times, expected %lld", k.name, static_cast< long long >( c.visits ), static_cast< long long >( want ) );
    if( out ) { probe( c.throwAt == 1 ? 0 : c.throwAt == c.total ? 1 : 2 ); for( int i = 0; i < plan().nops; ++i ) if( plan().ops[i].id > o.id && plan().ops[i].a[0] == o.a[0] ) { probe( 7 ); break; } }
    if( fn ) for( int i = 0; i < plan().nops; ++i ) if( plan().ops[i].id == fn->p1 && plan().ops[i].a[0] == o.a[0] ) probe( 3 );
    break;
  }
  g_done[o.id] = true;
}

void wlFinish()
{
  Plan const & p = plan();
  for( int i = 0; i < p.nops; ++i ) if( p.ops[i].phase != -1 && !g_done[p.ops[i].id] ) fail( "missed-visits", "op %d did not finish", i );
  for( int i = 0; i < p.nops; ++i ) for( int j = 0; j < i; ++j ) if( p.ops[i].phase == 1 && p.ops[j].phase == 1 && p.ops[i].tid != p.ops[j].tid && p.ops[i].a[0] == p.ops[j].a[0] ) { probe( 6 ); return; }
}
void wlTerminated( Op const *, int, int ) {}
} // namespace sim
