// C02: histories of editing, copying and re-creating cells, with concurrent and interrupting readers.
#include "c02.hpp"

namespace c02
{
void reg1(); void reg2(); void reg3(); void reg4(); void reg5(); void reg6(); void reg7();
static void init()
{
  if( !tys().empty() ) return;
#if defined( OTHER_DIMS )
  reg7();
#else
  reg1(); reg2(); reg3(); reg4(); reg5(); reg6();
#endif
}

// data set number -> values
static void dataset( Ty const & y, int64_t id, ld * v )
{
  sim::Rng r( static_cast< uint64_t >( id ) * 77 + 5 );
  // sizes from atoms to the solar system, and beyond for double precision
  static const ld sc[] = { 1, 1, 0.001L, 1000, 3.7L, 0.02L, 2e-6L, 1e-9L, 3e-8L, 5e6L, 1e9L, 1e-30L, 1e30L };
  ld s = sc[r.below( y.real == 4 ? 11 : 13 )] * ( 0.5L + r.unit() );
  auto rnd = [&]() -> ld { ld x = s * ( 2 * r.unit() - 1 ); return y.real == 4 ? static_cast< ld >( static_cast< float >( x ) ) : static_cast< ld >( static_cast< double >( x ) ); };
  if( y.shape < 2 )
  {
    for( int i = 0; i < y.ndata; ++i ) { do v[i] = rnd(); while( std::fabs( v[i] ) < s * 0.05L ); }
    return;
  }
  int const dim = y.dim;
  ld A[4][4], o[4];
  for( auto & a : A ) for( ld & x : a ) x = 0.3L * rnd();
  int perm = static_cast< int >( r.below( 6 ) );
  static const int pm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  auto main = [&]( int i ) -> ld & { return A[i][dim == 3 ? pm[perm][i] : ( i + perm ) % dim]; };
  for( int i = 0; i < dim; ++i ) { main( i ) += r.chance( 300 ) ? -s : s; o[i] = 2 * rnd(); }
  // exact parallelepipeds and boxes, whose values are all representable
  int const exact = static_cast< int >( r.below( 8 ) );
  ld noise = 0.07L;
  if( exact < 2 )
  {
    noise = 0;
    int ex; std::frexp( s, &ex );
    for( auto & a : A ) for( ld & x : a ) x = exact ? 0 : std::ldexp( static_cast< ld >( r.range( -2, 2 ) ), ex - 5 );
    for( int i = 0; i < dim; ++i ) { main( i ) += std::ldexp( static_cast< ld >( r.range( 8, 12 ) ) * ( r.chance( 300 ) ? -1 : 1 ), ex - 4 ); o[i] = std::ldexp( static_cast< ld >( r.range( -4, 4 ) ), ex - 3 ); }
  }
  int at[4] = { 0, 0, 0, 0 };
  for( int k = 0; k < y.ndata; )
  {
    for( int i = 0; i < dim; ++i )
    {
      ld z = o[i] + noise * rnd();
      for( int j = 0; j < dim; ++j ) z += A[i][j] * ref::table( y.sp[j], y.N[j] ).x[at[j]];
      v[k++] = y.real == 4 ? static_cast< ld >( static_cast< float >( z ) ) : static_cast< ld >( static_cast< double >( z ) );
    }
    for( int d = dim - 1; d >= 0 && ++at[d] == y.N[d]; --d ) at[d] = 0;
  }
}

// reference Jacobian with magnitude bounds
static void refJac( Ty const & y, const ld * v, const ld * x, ld J[16], ld M[16] )
{
  for( int i = 0; i < 16; ++i ) J[i] = M[i] = 0;
  if( y.shape == 0 ) { J[0] = v[0] / 2; M[0] = std::fabs( J[0] ); return; }
  if( y.shape == 1 ) { for( int i = 0; i < 3; ++i ) { J[i] = v[i] / 2; M[i] = std::fabs( J[i] ); } return; }
  int const dim = y.dim;
  ld L[4][8], D[4][8], LM[4][8], DM[4][8];
  for( int d = 0; d < dim; ++d ) for( int a = 0; a < y.N[d]; ++a ) { L[d][a] = ref::lag( y.sp[d], y.N[d], a, x[d], LM[d][a] ); D[d][a] = ref::dlag( y.sp[d], y.N[d], a, x[d], DM[d][a] ); }
  int at[4] = { 0, 0, 0, 0 };
  for( int k = 0; k < y.ndata; k += dim )
  {
    for( int j = 0; j < dim; ++j )
    {
      ld g = 1, m = 1;
      for( int d = 0; d < dim; ++d ) { g *= ( d == j ? D : L )[d][at[d]]; m *= ( d == j ? DM : LM )[d][at[d]]; }
      for( int i = 0; i < dim; ++i ) { J[dim * i + j] += g * v[k + i]; M[dim * i + j] += m * std::fabs( v[k + i] ); }
    }
    for( int d = dim - 1; d >= 0 && ++at[d] == y.N[d]; --d ) at[d] = 0;
  }
}

constexpr int MAXCELL = 7;
struct Cell
{
  void * mem; int ty; int owner;           // owner -1: shared, read-only in phase 1
  ld v[MAXDATA];
  void * held;
};
static Cell g_cell[MAXCELL];
static int g_nc;
static void * g_J[sim::MAXT], * g_det[sim::MAXT], * g_x[sim::MAXOPS];
}
using namespace c02;

namespace sim
{
const char * wlName() { return "c02"; }
int wlKinds() { return NKIND; }
const char * wlKindName( int k ) { return kindNames[k]; }
const char * wlProbeName( int i )
{
  static const char * n[] = { "output held the previous result", "output held NaN", "cell read right after an in-place edit", "cell re-created in place over other data", "inverted (negative) cell", "held reference used after assignment", "set to nearly the same data", "set to its own data", "set to another cell's data", "point outside of the cell" };
  return i < 10 ? n[i] : nullptr;
}

// params: number of cells, then type*16 + owner+1 for each
void wlGen( Rng & r, Plan & p, int )
{
  init();
  p.nthreads = static_cast< int >( r.range( 2, 4 ) );
  genPolicy( r, p );
  int nc = static_cast< int >( r.range( 2, MAXCELL ) );
  p.nparam = 1 + nc; p.param[0] = nc;
  int fav = static_cast< int >( r.below( static_cast< int64_t >( tys().size() ) ) );
  int ty[MAXCELL], ow[MAXCELL];
  for( int c = 0; c < nc; ++c )
  {
    ty[c] = r.chance( 650 ) ? fav : static_cast< int >( r.below( static_cast< int64_t >( tys().size() ) ) );
    ow[c] = r.chance( 350 ) ? -1 : static_cast< int >( r.below( p.nthreads ) );
    p.param[1 + c] = ty[c] * 16 + ow[c] + 1;
  }
  int64_t pool[6];
  for( auto & d : pool ) d = r.range( 1, 1000000 );
  int64_t xs[3][4];
  for( auto & x : xs )
  {
    bool const out = r.chance( 120 );      // anywhere near the cell
    for( auto & v : x ) v = out ? r.range( -3000000000ll, 3000000000ll ) : r.chance( 150 ) ? ( r.chance( 500 ) ? 1000000000 : -1000000000 ) : r.range( -1000000000, 1000000000 );
  }
  // arguments: cell, then per kind
  auto mk = [&]( int phase, int tid, bool readsOnly, int avoid ) -> Op *
  {
    bool mutOK = !readsOnly;
    for( int tries = 0; tries < 30; ++tries )
    {
      int c = static_cast< int >( r.below( nc ) );
      if( c == avoid ) continue;
      bool mine = phase != 1 && phase != -1 ? true : ow[c] == tid;
      bool readable = phase != 1 && phase != -1 ? true : ( ow[c] == tid || ow[c] < 0 );
      int k = r.chance( 450 ) ? static_cast< int >( r.below( JAC ) ) : static_cast< int >( r.range( JAC, READ ) );
      if( !isRead( k ) && ( !mine || !mutOK ) ) continue;
      if( isRead( k ) && !readable ) continue;
      int other = -1;
      if( k == COPY || k == ASSIGN || k == SWAP || k == OWN )
      {
        for( int z = 0; z < 8 && other < 0; ++z )
        {
          int d = static_cast< int >( r.below( nc ) );
          bool dr = phase != 1 && phase != -1 ? true : ( k == SWAP ? ow[d] == tid : ( ow[d] == tid || ow[d] < 0 ) );
          if( d != c && d != avoid && ty[d] == ty[c] && dr ) other = d;
        }
        if( k == OWN && ( other < 0 || r.chance( 500 ) ) ) other = c;
        if( other < 0 ) continue;
      }
      Ty const & y = tys()[static_cast< size_t >( ty[c] )];
      if( y.shape == 2 && y.dim != 3 && k > JACQ && k < READ ) k = r.chance( 500 ) ? JACV : JACQ;
      if( k == JACQ && y.nq == 0 ) k = JAC;
      Op & o = addOp( p, phase, tid, k );
      addArg( o, c );
      switch( k )
      {
        // a negative number sets the cell's own data again with one entry moved a little
        case SET: case RECREATE: addArg( o, k == SET && r.chance( 300 ) ? -r.range( 1, 1000000 ) : pool[r.below( 6 )] ); if( k == RECREATE ) addArg( o, r.below( 3 ) ); break;
        case EDIT: case HELD: addArg( o, r.below( y.ndata ) ); addArg( o, r.range( -900000, 900000 ) ); break;
        case COPY: case ASSIGN: case SWAP: case OWN: addArg( o, other ); break;
        case JAC: case JACV: case INV: case INVV: case INVA: case INVW: { int q = static_cast< int >( r.below( 3 ) ); addArg( o, r.below( 3 ) ); for( int d = 0; d < ( y.dim == 4 ? 4 : 3 ); ++d ) addArg( o, xs[q][d] ); break; }
        case JACQ: addArg( o, r.below( 3 ) ); addArg( o, r.below( y.nq ) ); break;
        default: break;
      }
      return &o;
    }
    return nullptr;
  };
  bool faults = r.chance( 600 );
  int pre = static_cast< int >( r.range( 0, 8 ) );
  for( int i = 0; i < pre; ++i ) mk( 0, 0, false, -1 );
  int per = static_cast< int >( r.range( 2, 10 ) );
  for( int t = 0; t < p.nthreads; ++t )
    for( int j = 0; j < per; ++j )
    {
      Op * o = mk( 1, t, false, -1 );
      if( !o || !faults ) continue;
      int id = o->id;
      if( r.chance( 300 ) && p.nops + 2 < MAXOPS )
      {
        // an interrupting operation must not touch what the outer one is changing; it may read what the outer one reads
        bool outerReads = isRead( o->kind );
        int cell = static_cast< int >( o->a[0] );
        Op * n = mk( -1, t, !outerReads, cell );
        if( n && !( !outerReads && o->nargs > 1 && ( o->kind == COPY || o->kind == ASSIGN || o->kind == SWAP || o->kind == OWN ) && n->a[0] == o->a[1] ) )
          addFault( p.ops[id], F_INTERRUPT, r.below( 1000 ), n->id );
      }
      if( r.chance( 120 ) ) addFault( p.ops[id], F_STALL, r.below( 1000 ) );
    }
  int post = static_cast< int >( r.range( 1, 6 ) );
  for( int i = 0; i < post; ++i ) mk( 2, static_cast< int >( p.nthreads - 1 ), false, -1 );
}

static void watchShared( bool on )
{
  for( int c = 0; c < g_nc; ++c ) if( g_cell[c].owner < 0 )
  {
    size_t n = tys()[static_cast< size_t >( g_cell[c].ty )].size;
    if( on ) watchInput( g_cell[c].mem, n ); else unwatchInput( g_cell[c].mem, n );
  }
}

void wlSetup( Plan const & p )
{
  init();
  g_nc = static_cast< int >( p.param[0] );
  for( int c = 0; c < g_nc; ++c )
  {
    Cell & k = g_cell[c];
    k.ty = static_cast< int >( p.param[1 + c] / 16 ); k.owner = static_cast< int >( p.param[1 + c] % 16 ) - 1;
    Ty const & y = tys()[static_cast< size_t >( k.ty )];
    k.mem = arenaAlloc( y.size, 32 );
    ref::junk( k.mem, y.size, p.seed + static_cast< uint64_t >( c ) * 3 );
    y.create( k.mem );
    dataset( y, c + 1, k.v );
    y.set( k.mem, k.v );
    k.held = y.held( k.mem );
  }
  for( int t = 0; t < p.nthreads; ++t ) { g_J[t] = arenaAlloc( 16 * 8 + 8, 32 ); g_det[t] = arenaAlloc( 8 ); ref::junk( g_J[t], 80, p.seed + static_cast< uint64_t >( t ) ); }
  for( int i = 0; i < p.nops; ++i )
  {
    Op const & o = p.ops[i];
    if( o.kind != JAC && o.kind != JACV && o.kind != INV && o.kind != INVV && o.kind != INVA && o.kind != INVW ) continue;
    void * x = arenaAlloc( 32 );
    for( int d = 0; d < ( o.nargs > 5 ? 4 : 3 ); ++d )
      if( tys()[static_cast< size_t >( g_cell[o.a[0]].ty )].real == 4 ) static_cast< float * >( x )[d] = static_cast< float >( o.a[2 + d] * 1e-9 ); else static_cast< double * >( x )[d] = o.a[2 + d] * 1e-9;
    watchInput( x, 32 );
    g_x[o.id] = x;
  }
}

static ld rd( const void * p, size_t real, int i ) { return real == 4 ? ld( static_cast< const float * >( p )[i] ) : ld( static_cast< const double * >( p )[i] ); }

static int g_seenPhase[MAXT];
void wlOp( Op const & o )
{
  // shared cells are read-only while threads run concurrently
  static int phase = -5;
  if( o.phase >= 0 && o.phase != phase ) { phase = o.phase; watchShared( phase == 1 ); }
  Cell & k = g_cell[o.a[0]];
  Ty const & y = tys()[static_cast< size_t >( k.ty )];
  int t = self();
  ld v[MAXDATA];
  switch( o.kind )
  {
    case SET:
      if( o.a[1] < 0 )
      {
        std::memcpy( v, k.v, sizeof v );
        int e = static_cast< int >( -o.a[1] % y.ndata );
        ld d = ( y.real == 4 ? 1e-6L : 1e-14L ) * ( 1 << ( -o.a[1] / 1000 % 20 ) );
        v[e] += v[e] * d;
        v[e] = y.real == 4 ? static_cast< ld >( static_cast< float >( v[e] ) ) : static_cast< ld >( static_cast< double >( v[e] ) );
        probe( 6 );
      }
      else dataset( y, o.a[1], v );
      { Window w; y.set( k.mem, v ); }
      std::memcpy( k.v, v, sizeof v );
      return;
    case EDIT: case HELD:
    {
      // moves one number by up to 12 % of the cell's size
      ld m = 0;
      for( int i = 0; i < y.ndata; ++i ) { ld z = std::fabs( k.v[i] - ( y.shape == 2 ? k.v[i % y.dim] : 0 ) ); if( z > m ) m = z; }
      ld nv = k.v[o.a[1]] + m * 0.12L * static_cast< ld >( o.a[2] ) * 1e-6L;
      nv = y.real == 4 ? static_cast< ld >( static_cast< float >( nv ) ) : static_cast< ld >( static_cast< double >( nv ) );
      { Window w; if( o.kind == EDIT ) y.edit( k.mem, static_cast< int >( o.a[1] ), nv ); else y.heldEdit( k.held, static_cast< int >( o.a[1] ), nv ); }
      k.v[o.a[1]] = nv;
      probe( 2 );
      return;
    }
    case COPY:
    {
      Cell & s = g_cell[o.a[1]];
      { Window w; y.destroy( k.mem ); y.copy( k.mem, s.mem ); k.held = y.held( k.mem ); }
      std::memcpy( k.v, s.v, sizeof k.v );
      return;
    }
    case ASSIGN: { Cell & s = g_cell[o.a[1]]; { Window w; y.assign( k.mem, s.mem ); } std::memcpy( k.v, s.v, sizeof k.v ); probe( 5 ); return; }
    case OWN: { Cell & s = g_cell[o.a[1]]; { Window w; y.setFrom( k.mem, s.mem ); } std::memcpy( v, s.v, sizeof v ); std::memcpy( k.v, v, sizeof v ); probe( o.a[1] == o.a[0] ? 7 : 8 ); return; }
    case SELF: { Window w; y.assign( k.mem, k.mem ); return; }
    case SWAP: { Cell & s = g_cell[o.a[1]]; { Window w; y.swp( k.mem, s.mem ); } std::memcpy( v, k.v, sizeof v ); std::memcpy( k.v, s.v, sizeof v ); std::memcpy( s.v, v, sizeof v ); return; }
    case RECREATE:
      dataset( y, o.a[1], v );
      {
        Window w;
        y.destroy( k.mem );
        leave();
        if( o.a[2] ) ref::junk( k.mem, y.size, plan().seed + static_cast< uint64_t >( o.id ) );
        enter();
        y.create( k.mem );
      }
      probe( 3 );
      if( y.shape < 2 && o.a[2] == 2 ) for( int i = 0; i < y.ndata; ++i ) v[i] = 1;      // documented initial value
      else { Window w; y.set( k.mem, v ); }
      { Window w; k.held = y.held( k.mem ); }
      std::memcpy( k.v, v, sizeof v );
      return;
    case READ:
      for( int i = 0; i < y.ndata; ++i )
      {
        ld g;
        { Window w; g = y.get( k.mem, i ); }
        if( !( g == k.v[i] ) ) fail( "wrong-data", "%s: cell %lld holds %.17Lg at entry %d, its last written value is %.17Lg", y.name, static_cast< long long >( o.a[0] ), g, i, k.v[i] );
      }
      return;
    default: break;
  }
  // Jacobians
  int n = y.shape == 0 ? 1 : y.shape == 1 ? 3 : y.dim * y.dim;
  void * J = g_J[t], * det = g_det[t];
  char jn[136];
  void * ownJ = nullptr;
  if( o.phase == -1 ) { ownJ = arenaAlloc( 136, 32 ); J = ownJ; det = arenaAlloc( 8 ); }
  if( o.a[1] == 0 ) { std::memset( J, 0, 128 ); std::memset( det, 0, 8 ); }
  else if( o.a[1] == 1 )
  {
    ref::junk( jn, 136, plan().seed + static_cast< uint64_t >( o.id ) * 5 );
    for( int i = 0; i < 16; ++i ) if( y.real == 4 ) static_cast< float * >( J )[i] = i % 2 ? NAN : 7.5f; else static_cast< double * >( J )[i] = i % 2 ? NAN : -3e30;
    std::memset( det, 0xff, 8 );
    probe( 1 );
  }
  else probe( 0 );
  ld x[4] = { 0, 0, 0, 0 };
  int const dim = y.shape == 2 ? y.dim : 3;
  if( o.kind == JACQ ) for( int d = 0; d < std::min( dim, 3 ); ++d ) x[d] = y.qx[o.a[2]][d];
  else for( int d = 0; d < dim; ++d ) x[d] = rd( g_x[o.id], y.real, d );
  for( int d = 0; d < dim; ++d ) if( x[d] < -1 || x[d] > 1 ) { probe( 9 ); break; }
  {
    Window w;
    switch( o.kind )
    {
      case JAC: y.jac( k.mem, g_x[o.id], J ); break;
      case JACV: y.jacv( k.mem, g_x[o.id], J ); break;
      case JACQ: y.jacq[o.a[2]]( k.mem, J ); break;
      case INV: y.inv( k.mem, g_x[o.id], J, det ); break;
      case INVA: y.inva( k.mem, g_x[o.id], J, det ); break;
      case INVW: y.invw( k.mem, g_x[o.id], J, det ); break;
      default: y.invv( k.mem, g_x[o.id], J, det ); break;
    }
  }
  const ld eps = y.real == 4 ? 3e-6L : 4e-14L;
  ld R[16], M[16], E[16];
  refJac( y, k.v, x, R, M );
  for( int i = 0; i < 16; ++i ) E[i] = eps * M[i];
  const char * how = kindNames[o.kind];
  if( o.kind == JAC || o.kind == JACV || o.kind == JACQ )
  {
    for( int i = 0; i < n; ++i )
    {
      ld g = rd( J, y.real, i );
      if( !ref::close( g, R[i], E[i] ) ) fail( "wrong-jacobian", "%s %s: entry %d is %.17Lg, expected %.17Lg (tolerance %.2Lg)", y.name, how, i, g, R[i], E[i] );
    }
  }
  else
  {
    ld I[9], TI[9], det_, td;
    if( y.shape < 2 )
    {
      det_ = 1;
      for( int i = 0; i < 3; ++i ) det_ *= R[y.shape == 0 ? 0 : i];
      td = eps * std::fabs( det_ );
      for( int i = 0; i < n; ++i ) { I[i] = 1 / R[i]; TI[i] = eps * std::fabs( I[i] ); }
    }
    else
    {
      // adjugate with error propagation from the entries' errors
      ld A[9], TA[9];
      for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
      {
        int r1 = ( j + 1 ) % 3, r2 = ( j + 2 ) % 3, c1 = ( i + 1 ) % 3, c2 = ( i + 2 ) % 3;
        ld a = R[3 * r1 + c1], b = R[3 * r2 + c2], c = R[3 * r1 + c2], d = R[3 * r2 + c1];
        ld ea = E[3 * r1 + c1], eb = E[3 * r2 + c2], ec = E[3 * r1 + c2], ed = E[3 * r2 + c1];
        A[3 * i + j] = a * b - c * d;
        TA[3 * i + j] = eps * ( std::fabs( a * b ) + std::fabs( c * d ) ) + std::fabs( a ) * eb + std::fabs( b ) * ea + std::fabs( c ) * ed + std::fabs( d ) * ec + ea * eb + ec * ed;
      }
      det_ = R[0] * A[0] + R[1] * A[3] + R[2] * A[6];
      td = 0;
      for( int q = 0; q < 3; ++q ) td += std::fabs( R[q] ) * TA[3 * q] + E[q] * std::fabs( A[3 * q] ) + E[q] * TA[3 * q] + eps * std::fabs( R[q] * A[3 * q] );
      if( td > 0.01L * std::fabs( det_ ) ) { std::memset( J, 0, 72 ); return; }          // too close to singular to judge
      for( int i = 0; i < 9; ++i ) { I[i] = A[i] / det_; TI[i] = ( TA[i] + std::fabs( I[i] ) * td * 1.02L ) / std::fabs( det_ ) * 1.05L + eps * std::fabs( I[i] ); }
    }
    ld gd = rd( det, y.real, 0 );
    if( det_ < 0 ) probe( 4 );
    if( !ref::close( gd, det_, td ) ) fail( "wrong-determinant", "%s %s: determinant is %.17Lg, expected %.17Lg (tolerance %.2Lg)", y.name, how, gd, det_, td );
    for( int i = 0; i < n; ++i )
    {
      ld g = rd( J, y.real, i );
      if( !ref::close( g, I[i], TI[i] ) ) fail( "wrong-inverse", "%s %s: entry %d is %.17Lg, expected %.17Lg (tolerance %.2Lg)", y.name, how, i, g, I[i], TI[i] );
    }
  }
  // same data, same arguments: same bits, whatever happened in between
  uint64_t s = mix( 0xC02, static_cast< uint64_t >( o.kind ) * 64 + static_cast< uint64_t >( k.ty ) );
  for( int i = 0; i < y.ndata; ++i ) { double q = static_cast< double >( k.v[i] ); uint64_t u; std::memcpy( &u, &q, 8 ); s = mix( s, u ); }
  for( int d = 0; d < dim; ++d ) { double q = static_cast< double >( x[d] ); uint64_t u; std::memcpy( &u, &q, 8 ); s = mix( s, u ); }
  unsigned char bits[136];
  size_t nb = static_cast< size_t >( n ) * y.real;
  std::memcpy( bits, J, nb );
  if( o.kind == INV || o.kind == INVV || o.kind == INVA || o.kind == INVW ) { std::memcpy( bits + nb, det, y.real ); nb += y.real; }
  sameBits( s, bits, nb, how );
}

void wlFinish()
{
  // no cell may have drifted from its model
  for( int c = 0; c < g_nc; ++c )
  {
    Ty const & y = tys()[static_cast< size_t >( g_cell[c].ty )];
    for( int i = 0; i < y.ndata; ++i )
    {
      ld g = y.get( g_cell[c].mem, i );
      if( !( g == g_cell[c].v[i] ) ) fail( "wrong-data", "%s: at the end cell %d holds %.17Lg at entry %d, its last written value is %.17Lg", y.name, c, g, i, g_cell[c].v[i] );
    }
  }
}
void wlTerminated( Op const *, int, int ) {}
} // namespace sim
