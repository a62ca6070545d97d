// C01: concurrent / interrupted basis and element evaluation.
#include "c01.hpp"

namespace c01
{
std::vector< Ev > & evs() { static std::vector< Ev > v; return v; }
static void init() { if( evs().empty() ) { reg1(); reg2(); reg3(); reg4(); reg5(); reg6(); reg7(); } }

static void * g_in[sim::MAXOPS];
static void * g_out[sim::MAXOPS];
static int64_t g_coord[sim::MAXOPS][4];
}
using namespace c01;

namespace sim
{
const char * wlName() { return "c01"; }
int wlKinds() { return 1; }
const char * wlKindName( int ) { return "eval"; }
const char * wlProbeName( int i )
{
  static const char * n[] = { "evaluation at a support point", "evaluation outside [-1,1]", "same evaluation running in two threads", "order >= 5", "single precision", "evaluation next to a support point", "tiny coordinate" };
  return i < 7 ? n[i] : nullptr;
}

void wlGen( Rng & r, Plan & p, int )
{
  init();
  int ne = static_cast< int >( evs().size() );
  p.nthreads = static_cast< int >( r.range( 2, 4 ) );
  genPolicy( r, p );
  int K = static_cast< int >( r.range( 1, 7 ) );
  struct E { int ev; int64_t c[4]; } es[8];
  int base = static_cast< int >( r.below( ne ) );
  for( int k = 0; k < K; ++k )
  {
    // related evaluations (same family, or same function elsewhere) are more likely to share state
    switch( r.below( 4 ) )
    {
      case 0: es[k].ev = static_cast< int >( r.below( ne ) ); break;
      case 1: es[k].ev = base; break;
      default: es[k].ev = static_cast< int >( ( base + r.range( -4, 4 ) + ne ) % ne );
    }
    for( int d = 0; d < 4; ++d ) es[k].c[d] = ref::genCoord( r );
    if( k && r.chance( 300 ) ) for( int d = 0; d < 4; ++d ) if( r.chance( 500 ) ) es[k].c[d] = es[k - 1].c[d];
  }
  auto mk = [&]( int phase, int tid, int k ) -> Op &
  {
    Op & o = addOp( p, phase, tid, 0 );
    addArg( o, es[k].ev );
    for( int d = 0; d < evs()[static_cast< size_t >( es[k].ev )].dims; ++d ) addArg( o, es[k].c[d] );
    return o;
  };
  bool faults = r.chance( 600 );
  for( int k = 0; k < K; ++k ) mk( 0, 0, k );
  int per = static_cast< int >( r.range( 1, 6 ) );
  for( int t = 0; t < p.nthreads; ++t )
    for( int j = 0; j < per; ++j )
    {
      int k = static_cast< int >( r.below( K ) );
      Op & o = mk( 1, t, k );
      if( faults )
      {
        int id = o.id;
        if( r.chance( 300 ) && p.nops + 1 < MAXOPS )
        {
          Op & nst = mk( -1, t, static_cast< int >( r.below( K ) ) );
          addFault( p.ops[id], F_INTERRUPT, r.below( 1000 ), nst.id );
        }
        if( r.chance( 100 ) ) addFault( p.ops[id], F_STALL, r.below( 1000 ) );
        if( r.chance( 60 ) ) addFault( p.ops[id], F_ALLOC, r.range( 1, 3 ) );
      }
    }
  for( int k = 0; k < K; ++k ) mk( 2, static_cast< int >( r.below( p.nthreads ) ), k );
}

void wlSetup( Plan const & p )
{
  init();
  for( int i = 0; i < p.nops; ++i )
  {
    Op const & o = p.ops[i];
    Ev const & e = evs()[static_cast< size_t >( o.a[0] )];
    g_in[o.id] = nullptr;
    for( int j = 0; j < i; ++j ) if( opSig( p.ops[j] ) == opSig( o ) ) { g_in[o.id] = g_in[p.ops[j].id]; break; }
    if( !g_in[o.id] )
    {
      void * in = arenaAlloc( e.real * static_cast< size_t >( e.dims ) );
      for( int d = 0; d < e.dims; ++d )
        if( e.real == 4 ) static_cast< float * >( in )[d] = ref::coordOf< float >( o.a[1 + d], e.sp[d], e.N[d] );
        else static_cast< double * >( in )[d] = ref::coordOf< double >( o.a[1 + d], e.sp[d], e.N[d] );
      watchInput( in, e.real * static_cast< size_t >( e.dims ) );
      g_in[o.id] = in;
    }
    g_out[o.id] = arenaAlloc( e.real * static_cast< size_t >( e.nout ) );
    ref::junk( g_out[o.id], e.real * static_cast< size_t >( e.nout ), p.seed + static_cast< uint64_t >( i ) );
  }
}

void wlOp( Op const & o )
{
  Ev const & e = evs()[static_cast< size_t >( o.a[0] )];
  void * out = g_out[o.id];
  const void * in = g_in[o.id];
  for( int attempt = 0; ; ++attempt )
  {
    try
    {
      Window w;
      e.fn( in, out );
    }
    catch( std::bad_alloc const & )
    {
      leave();
      if( attempt || !faultOf( o, F_ALLOC ) ) fail( "unexpected-exception", "%s: bad_alloc without an allocation failure", e.name );
      continue;      // the caller may retry after a failed allocation
    }
    catch( ... ) { leave(); fail( "unexpected-exception", "%s: evaluation threw", e.name ); }
    break;
  }
  ld x[4], want[64], tol[64];
  char s[128] = ""; int k = 0;
  for( int d = 0; d < e.dims; ++d )
  {
    x[d] = e.real == 4 ? ld( static_cast< const float * >( in )[d] ) : ld( static_cast< const double * >( in )[d] );
    k += std::snprintf( s + k, sizeof s - static_cast< size_t >( k ), "%s%.17Lg", d ? "," : "", x[d] );
    if( o.a[1 + d] >= ref::NODE && o.a[1 + d] < ref::NEAR ) probe( 0 );
    if( o.a[1 + d] >= ref::NEAR ) probe( o.a[1 + d] < ref::TINY ? 5 : 6 );
    if( x[d] < -1 || x[d] > 1 ) probe( 1 );
  }
  if( e.N[0] > 5 ) probe( 3 );
  if( e.real == 4 ) probe( 4 );
  e.rf( e, x, want, tol );
  for( int i = 0; i < e.nout; ++i )
  {
    ld got = e.real == 4 ? ld( static_cast< float * >( out )[i] ) : ld( static_cast< double * >( out )[i] );
    if( !ref::close( got, want[i], tol[i] ) ) fail( "wrong-value", "%s at (%s): component %d is %.17Lg, expected %.17Lg (tolerance %.2Lg)", e.name, s, i, got, want[i], tol[i] );
  }
  sameBits( opSig( o ), out, e.real * static_cast< size_t >( e.nout ), e.name );
}

void wlFinish()
{
  Plan const & p = plan();
  for( int i = 0; i < p.nops; ++i ) for( int j = 0; j < i; ++j ) if( p.ops[i].phase == 1 && p.ops[j].phase == 1 && p.ops[i].tid != p.ops[j].tid && g_in[p.ops[i].id] == g_in[p.ops[j].id] ) { probe( 2 ); return; }
}
void wlTerminated( Op const *, int, int ) {}
} // namespace sim
