// C07: field interpolation over data sources that stall, fail, re-enter or are shared arrays and views.
#include "c01.hpp"
#include "exc.hpp"

namespace c07
{
using ref::ld;
using shiva::CArrayNd;
using shiva::CArrayViewNd;
enum { INTERP, GRAD, SET, NKIND };
static const char * kinds[] = { "interpolate-value", "interpolate-gradient", "change-data" };
enum { FUNCTOR, REFFUNCTOR, INTFUNCTOR, FLOATFUNCTOR, DOUBLEFUNCTOR, LAMBDA, ARRAY, VIEW, CVIEW, NSRC };
static const char * srcs[] = { "function object", "function object returning references", "integer-valued function object", "function object returning float", "function object returning double", "lambda", "array", "view", "read-only view" };

constexpr int MAXP = 160;
struct Ctx
{
  sim::Op const * o;
  int dims, N[3], total;
  const void * data;
  size_t real;
  int64_t reads, cap, throwAt, throwType, blockAt, nestAt;
  int nestOp;
  bool threw;
  int seen[MAXP];
};

template< typename REAL >
static REAL const & readPoint( Ctx & c, std::initializer_list< long long > ix )
{
  sim::leave();
  int k = 0, lin = 0;
  bool bad = static_cast< int >( ix.size() ) != c.dims;
  for( long long i : ix ) { if( !bad && ( i < 0 || i >= c.N[k] ) ) bad = true; if( !bad ) lin = lin * c.N[k] + static_cast< int >( i ); ++k; }
  if( bad ) { char s[96]; int n = 0; for( long long i : ix ) n += std::snprintf( s + n, sizeof s - static_cast< size_t >( n ), "%lld ", i ); sim::fail( "no-such-support-point", "the source was asked for support point ( %s)", s ); }
  if( ++c.reads > c.cap ) sim::fail( "unbounded-reads", "the source was read more than %lld times for %d support points", static_cast< long long >( c.cap ), c.total );
  c.seen[lin]++;
  int64_t k1 = c.reads;
  sim::enter();
  sim::yieldPoint( "source" );
  if( k1 == c.blockAt ) { sim::faultFired( sim::F_BLOCK ); sim::sleepPoint( 2 + k1 ); }
  if( k1 == c.nestAt ) { sim::faultFired( sim::F_NEST ); sim::runNested( c.nestOp ); }
  if( k1 == c.throwAt ) { sim::faultFired( sim::F_THROW ); c.threw = true; sim::leave(); exc::raise( c.throwType, c.o->id, k1 ); }
  return static_cast< REAL const * >( c.data )[lin];
}
template< typename REAL > struct Functor { Ctx * c; template< typename ... I > REAL operator()( I ... i ) const { return readPoint< REAL >( *c, { static_cast< long long >( i )... } ); } };
template< typename REAL > struct RefFunctor { Ctx * c; REAL const & operator()( int i ) const { return readPoint< REAL >( *c, { i } ); } REAL const & operator()( int i, int j ) const { return readPoint< REAL >( *c, { i, j } ); }
                                              REAL const & operator()( int i, int j, int k ) const { return readPoint< REAL >( *c, { i, j, k } ); } };
template< typename REAL > struct IntFunctor { Ctx * c; template< typename ... I > int operator()( I ... i ) const { REAL v = readPoint< REAL >( *c, { static_cast< long long >( i )... } ); return std::isfinite( v ) ? static_cast< int >( v ) : 0; } };
template< typename REAL, typename OTHER > struct OtherFunctor { Ctx * c; template< typename ... I > OTHER operator()( I ... i ) const { return static_cast< OTHER >( readPoint< REAL >( *c, { static_cast< long long >( i )... } ) ); } };

struct Elem
{
  char name[64];
  int dims, N[3], sp[3], total;
  size_t real;
  ld eps;
  void ( *fn )( int kind, int src, Ctx & c, const void * x, void * out );
};
static std::vector< Elem > & elems() { static std::vector< Elem > v; return v; }

template< typename REAL, typename ... BS >
struct E
{
  static constexpr int D = sizeof...( BS );
  using T = typename c01::Api< REAL, D, 2, BS... >::type;
  template< typename VAR > static void apply( int kind, REAL const ( &x )[D], VAR const & var, REAL * out )
  {
    if( kind == INTERP ) *out = T::value( x, var );
    else { auto const g = T::gradient( x, var ); for( int k = 0; k < D; ++k ) out[k] = g( k ); }
  }
  static void run( int kind, int src, Ctx & c, const void * xp, void * op )
  {
    REAL const ( &x )[D] = *static_cast< REAL const ( * )[D] >( xp );
    REAL * out = static_cast< REAL * >( op );
    REAL * d = static_cast< REAL * >( const_cast< void * >( c.data ) );
    switch( src )
    {
      case FUNCTOR: { Functor< REAL > f{ &c }; apply( kind, x, f, out ); break; }
      case REFFUNCTOR: { RefFunctor< REAL > f{ &c }; apply( kind, x, f, out ); break; }
      case INTFUNCTOR: { IntFunctor< REAL > f{ &c }; apply( kind, x, f, out ); break; }
      case FLOATFUNCTOR: { OtherFunctor< REAL, float > f{ &c }; apply( kind, x, f, out ); break; }
      case DOUBLEFUNCTOR: { OtherFunctor< REAL, double > f{ &c }; apply( kind, x, f, out ); break; }
      case LAMBDA: apply( kind, x, [&c]( auto ... i ) { return readPoint< REAL >( c, { static_cast< long long >( i )... } ); }, out ); break;
      case ARRAY: apply( kind, x, *reinterpret_cast< CArrayNd< REAL, BS::N... > const * >( d ), out ); break;
      case VIEW: { CArrayViewNd< REAL, BS::N... > v( *reinterpret_cast< REAL ( * )[( BS::N * ... )] >( d ) ); apply( kind, x, v, out ); break; }
      default: { CArrayViewNd< REAL const, BS::N... > v( *reinterpret_cast< REAL const ( * )[( BS::N * ... )] >( d ) ); apply( kind, x, v, out ); }
    }
  }
  static void add()
  {
    Elem e{};
    e.dims = D; e.real = sizeof( REAL ); e.total = ( BS::N * ... );
    int N[] = { BS::N... }, sp[] = { BS::sp... }, mx = 0;
    static const char * sn[] = { "eq", "gl", "gll" };
    int k = std::snprintf( e.name, sizeof e.name, "%s", sizeof( REAL ) == 4 ? "f" : "d" );
    for( int d = 0; d < D; ++d ) { e.N[d] = N[d]; e.sp[d] = sp[d]; if( N[d] > mx ) mx = N[d]; k += std::snprintf( e.name + k, sizeof e.name - static_cast< size_t >( k ), "-%s%d", sn[sp[d]], N[d] - 1 ); }
    e.eps = ref::eps< REAL >( mx );
    e.fn = &run;
    elems().push_back( e );
  }
};
static void init()
{
  if( !elems().empty() ) return;
  using namespace wl;
  using ref::EQ; using ref::GL; using ref::GLL;
  E< double, B< double, 1, EQ > >::add();
  E< double, B< double, 4, GLL > >::add();
  E< double, B< double, 1, GLL >, B< double, 1, GLL > >::add();
  E< double, B< double, 3, GLL >, B< double, 1, GL > >::add();
  E< float, B< float, 2, EQ >, B< float, 2, GLL > >::add();
  E< double, B< double, 1, EQ >, B< double, 1, EQ >, B< double, 1, EQ > >::add();
  E< double, B< double, 2, GLL >, B< double, 1, GL >, B< double, 3, GLL > >::add();
  E< double, B< double, 1, GL >, B< double, 2, EQ >, B< double, 1, GLL > >::add();
  E< float, B< float, 1, GLL >, B< float, 3, GLL >, B< float, 2, GL > >::add();
}

constexpr int MAXD = 5;
static int g_nd, g_elem[MAXD], g_owner[MAXD];
static void * g_data[MAXD];
static ld g_val[MAXD][MAXP];        // what the data holds
static void * g_x[sim::MAXOPS];
static void * g_out[sim::MAXOPS];

// numbers the element's precision and int hold exactly
static double number( int64_t code )
{
  if( code >= 1000000 ) return code % 3 == 0 ? NAN : code % 3 == 1 ? INFINITY : -INFINITY;
  // most between a few and some thousands, others tiny or large
  int const scale = static_cast< int >( code / 12288 % 81 );
  return static_cast< double >( code % 4096 ) * ( scale < 60 ? 1.0 : scale < 78 ? std::ldexp( 1.0, -3 * ( scale - 59 ) ) : 32768.0 ) * ( code % 3 == 0 ? 0.0 : code % 3 == 1 ? 1.0 : -0.125 );
}
static void store( int d, int k, int64_t code )
{
  Elem const & e = elems()[static_cast< size_t >( g_elem[d] )];
  double v = number( code );
  g_val[d][k] = v;
  if( e.real == 4 ) static_cast< float * >( g_data[d] )[k] = static_cast< float >( v );
  else static_cast< double * >( g_data[d] )[k] = v;
}
static void reference( Elem const & e, int kind, bool asInt, ld const * val, ld const * x, ld * out, ld * tol )
{
  int n = kind == INTERP ? 1 : e.dims;
  for( int c = 0; c < n; ++c ) out[c] = tol[c] = 0;
  for( int l = 0; l < e.total; ++l )
  {
    int ix[3], r = l;
    for( int d = e.dims - 1; d >= 0; --d ) { ix[d] = r % e.N[d]; r /= e.N[d]; }
    ld v = !asInt ? val[l] : std::isfinite( val[l] ) ? std::trunc( val[l] ) : 0;
    for( int c = 0; c < n; ++c )
    {
      ld p = 1, m = 1;
      for( int d = 0; d < e.dims; ++d )
      {
        ld mg;
        p *= kind == GRAD && d == c ? ref::dlag( e.sp[d], e.N[d], ix[d], x[d], mg ) : ref::lag( e.sp[d], e.N[d], ix[d], x[d], mg );
        m *= mg;
      }
      out[c] += p * v; tol[c] += e.eps * m * std::fabs( v );
    }
  }
}
}
using namespace c07;

namespace sim
{
const char * wlName() { return "c07"; }
int wlKinds() { return NKIND; }
const char * wlKindName( int k ) { return kinds[k]; }
const char * wlProbeName( int i )
{
  static const char * n[] = { "source throws at its first read", "source throws later", "interpolation re-entered from its own source", "same data read by two threads", "interpolation after the data changed", "point outside [-1,1]", "a value of the source is not finite" };
  return i < 7 ? n[i] : nullptr;
}

// params: nd, (elem, owner)...   args: data, source, x0, x1, x2 | data, point, code
void wlGen( Rng & r, Plan & p, int )
{
  init();
  p.nthreads = static_cast< int >( r.range( 2, 4 ) );
  genPolicy( r, p );
  int nd = static_cast< int >( r.range( 1, MAXD ) );
  int base = static_cast< int >( r.below( static_cast< int64_t >( elems().size() ) ) );
  p.param[p.nparam++] = nd;
  int owner[MAXD], el[MAXD];
  for( int d = 0; d < nd; ++d )
  {
    el[d] = r.chance( 600 ) ? base : static_cast< int >( r.below( static_cast< int64_t >( elems().size() ) ) );
    owner[d] = r.chance( 500 ) ? -1 : static_cast< int >( r.below( p.nthreads ) );
    p.param[p.nparam++] = el[d]; p.param[p.nparam++] = owner[d];
  }
  int64_t pool[3]; for( int d = 0; d < 3; ++d ) pool[d] = ref::genCoord( r );
  auto mk = [&]( int phase, int tid, bool mayset ) -> Op *
  {
    int d = -1;
    for( int k = 0; k < 20 && d < 0; ++k ) { int q = static_cast< int >( r.below( nd ) ); if( phase == 0 || owner[q] == -1 || owner[q] == tid ) d = q; }
    if( d < 0 ) return nullptr;
    if( mayset && r.chance( 250 ) && ( phase == 0 || owner[d] == tid ) )
    {
      Op & o = addOp( p, phase, tid, SET );
      addArg( o, d ); addArg( o, r.below( elems()[static_cast< size_t >( el[d] )].total ) ); addArg( o, r.chance( 80 ) ? 1000000 + r.below( 3 ) : r.below( 1000000 ) );
      return &o;
    }
    Op & o = addOp( p, phase, tid, r.chance( 500 ) ? INTERP : GRAD );
    addArg( o, d ); addArg( o, r.below( NSRC ) );
    for( int k = 0; k < 3; ++k ) addArg( o, r.chance( 500 ) ? pool[k] : ref::genCoord( r ) );
    return &o;
  };
  bool faults = r.chance( 800 );
  int pre = static_cast< int >( r.range( 0, 3 ) );
  for( int i = 0; i < pre; ++i ) mk( 0, 0, true );
  int per = static_cast< int >( r.range( 1, 4 ) );
  for( int t = 0; t < p.nthreads; ++t ) for( int j = 0; j < per; ++j )
  {
    Op * o = mk( 1, t, true );
    if( !o || !faults || o->kind == SET ) continue;
    int id = o->id;
    int total = elems()[static_cast< size_t >( el[o->a[0]] )].total * ( o->kind == GRAD ? elems()[static_cast< size_t >( el[o->a[0]] )].dims : 1 );
    bool call = o->a[1] <= LAMBDA;
    auto at = [&]() -> int64_t { return r.chance( 200 ) ? 1 : r.chance( 200 ) ? total : r.range( 1, total ); };
    if( call && r.chance( 300 ) ) addFault( p.ops[id], F_THROW, at(), r.below( exc::NTYPES ) );
    if( call && r.chance( 250 ) ) addFault( p.ops[id], F_BLOCK, at() );
    if( r.chance( 300 ) && p.nops + 2 < MAXOPS )
    {
      Op * n = mk( -1, t, false );
      if( n )
      {
        if( r.chance( 400 ) ) { n->a[0] = p.ops[id].a[0]; if( r.chance( 500 ) ) n->a[1] = p.ops[id].a[1]; }
        if( n->a[1] <= LAMBDA && r.chance( 200 ) ) addFault( *n, F_THROW, r.range( 1, 6 ), r.below( exc::NTYPES ) );
        if( call && r.chance( 600 ) ) addFault( p.ops[id], F_NEST, at(), n->id ); else addFault( p.ops[id], F_INTERRUPT, r.below( 1000 ), n->id );
      }
    }
    if( r.chance( 80 ) ) addFault( p.ops[id], F_STALL, r.below( 1000 ) );
    if( r.chance( 40 ) ) addFault( p.ops[id], F_ALLOC, r.range( 1, 3 ) );
  }
  int post = static_cast< int >( r.range( 0, 3 ) );
  for( int i = 0; i < post; ++i ) { int t = static_cast< int >( r.below( p.nthreads ) ); mk( 2, t, true ); }
}

void wlSetup( Plan const & p )
{
  init();
  g_termMode = 0;
  g_nd = static_cast< int >( p.param[0] );
  for( int d = 0; d < g_nd; ++d )
  {
    g_elem[d] = static_cast< int >( p.param[1 + 2 * d] ); g_owner[d] = static_cast< int >( p.param[2 + 2 * d] );
    Elem const & e = elems()[static_cast< size_t >( g_elem[d] )];
    g_data[d] = arenaAlloc( e.real * static_cast< size_t >( e.total ), 64 );
    Rng r( p.seed * 31 + static_cast< uint64_t >( d ) );
    for( int k = 0; k < e.total; ++k ) store( d, k, r.below( 1000000 ) );
    if( r.chance( 120 ) ) store( d, static_cast< int >( r.below( e.total ) ), 1000000 + r.below( 3 ) );
    watchInput( g_data[d], e.real * static_cast< size_t >( e.total ) );
  }
  for( int i = 0; i < p.nops; ++i )
  {
    Op const & o = p.ops[i];
    if( o.kind == SET ) continue;
    Elem const & e = elems()[static_cast< size_t >( g_elem[o.a[0]] )];
    g_x[i] = arenaAlloc( e.real * 3, 64 );
    for( int d = 0; d < e.dims; ++d )
      if( e.real == 4 ) static_cast< float * >( g_x[i] )[d] = ref::coordOf< float >( o.a[2 + d], e.sp[d], e.N[d] );
      else static_cast< double * >( g_x[i] )[d] = ref::coordOf< double >( o.a[2 + d], e.sp[d], e.N[d] );
    watchInput( g_x[i], e.real * 3 );
    g_out[i] = arenaAlloc( e.real * 3, 64 );
    ref::junk( g_out[i], e.real * 3, p.seed + static_cast< uint64_t >( i ) );
  }
}

void wlOp( Op const & o )
{
  int d = static_cast< int >( o.a[0] );
  Elem const & e = elems()[static_cast< size_t >( g_elem[d] )];
  if( o.kind == SET ) { store( d, static_cast< int >( o.a[1] ), o.a[2] ); probe( 4 ); return; }
  int src = static_cast< int >( o.a[1] );
  for( int attempt = 0; ; ++attempt )
  {
    Ctx c{};
    c.o = &o; c.dims = e.dims; c.total = e.total; c.data = g_data[d]; c.real = e.real;
    for( int k = 0; k < e.dims; ++k ) c.N[k] = e.N[k];
    c.cap = 16ll * e.total * e.dims;
    const FaultSpec * ft = faultOf( o, F_THROW ), * fb = faultOf( o, F_BLOCK ), * fn = faultOf( o, F_NEST );
    c.throwAt = ft ? ft->p0 : 0; c.throwType = ft ? ft->p1 : 0; c.blockAt = fb ? fb->p0 : 0; c.nestAt = fn ? fn->p0 : 0; c.nestOp = fn ? static_cast< int >( fn->p1 ) : -1;
    bool out = false, noMem = false;
    try { Window w; e.fn( o.kind, src, c, g_x[o.id], g_out[o.id] ); }
    catch( ... )
    {
      leave();
      exc::Tag t{};
      int type = exc::classify( t );
      if( type == exc::OTHER ) fail( "wrong-exception", "%s: an exception of another type came out", e.name );
      if( type == exc::NOMEM ) noMem = true;
      else
      {
        if( t.op != o.id || t.visit != c.throwAt || t.tag != 0.5 * o.id ) fail( "wrong-exception", "%s: the exception that came out was thrown by op %d at read %lld", e.name, t.op, static_cast< long long >( t.visit ) );
        if( type != c.throwType % exc::NTYPES ) fail( "wrong-exception", "%s: an exception of another type came out", e.name );
        out = true;
      }
    }
    if( noMem )
    {
      if( attempt || c.threw || !faultOf( o, F_ALLOC ) ) fail( "wrong-exception", "%s: bad_alloc that the source did not throw", e.name );
      continue;
    }
    if( c.threw && !out ) fail( "exception-lost", "%s: the source threw at read %lld and the interpolation returned normally", e.name, static_cast< long long >( c.throwAt ) );
    if( out )
    {
      if( !c.threw ) fail( "wrong-exception", "%s: an exception came out that the source did not throw", e.name );
      probe( c.throwAt == 1 ? 0 : 1 );
      return;
    }
    if( src <= LAMBDA )
      for( int k = 0; k < e.total; ++k ) if( !c.seen[k] ) fail( "support-point-not-read", "%s: the source was never asked for support point %d of %d", e.name, k, e.total );
    if( fn && src <= LAMBDA ) for( int i = 0; i < plan().nops; ++i ) if( plan().ops[i].id == fn->p1 && plan().ops[i].a[0] == o.a[0] ) probe( 2 );
    break;
  }
  ld x[3], want[3], tol[3];
  for( int k = 0; k < e.dims; ++k )
  {
    x[k] = e.real == 4 ? ld( static_cast< float * >( g_x[o.id] )[k] ) : ld( static_cast< double * >( g_x[o.id] )[k] );
    if( std::fabs( x[k] ) > 1 ) probe( 5 );
  }
  reference( e, o.kind, src == INTFUNCTOR, g_val[d], x, want, tol );
  int n = o.kind == INTERP ? 1 : e.dims;
  // a value that is no finite number takes part in every sum: none of them is finite
  bool finite = true;
  for( int k = 0; k < e.total; ++k ) finite = finite && ( src == INTFUNCTOR || std::isfinite( g_val[d][k] ) );
  if( !finite ) probe( 6 );
  for( int c = 0; c < n; ++c )
  {
    ld got = e.real == 4 ? ld( static_cast< float * >( g_out[o.id] )[c] ) : ld( static_cast< double * >( g_out[o.id] )[c] );
    if( !finite )
    {
      if( std::isfinite( got ) ) fail( "wrong-value", "%s, %s, source: %s: component %d is %.17Lg although a value of the source is not finite", e.name, kinds[o.kind], srcs[src], c, got );
      continue;
    }
    if( !ref::close( got, want[c], tol[c] + 1e-30L ) ) fail( "wrong-value", "%s, %s, source: %s: component %d is %.17Lg, expected %.17Lg (tolerance %.2Lg)", e.name, kinds[o.kind], srcs[src], c, got, want[c], tol[c] );
  }
}

void wlFinish()
{
  Plan const & p = plan();
  for( int i = 0; i < p.nops; ++i ) for( int j = 0; j < i; ++j ) if( p.ops[i].phase == 1 && p.ops[j].phase == 1 && p.ops[i].tid != p.ops[j].tid && p.ops[i].a[0] == p.ops[j].a[0] ) { probe( 3 ); return; }
}
void wlTerminated( Op const *, int, int ) {}
} // namespace sim
namespace c01 { std::vector< Ev > & evs() { static std::vector< Ev > v; return v; } }
