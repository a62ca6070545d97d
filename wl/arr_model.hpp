// Buffers, the objects over them, and the register model: shared by C03 and C04.
#pragma once
#include "arr.hpp"

namespace arr
{
constexpr int MAXBUF = 3, MAXOBJ = 4, MAXSLOT = 8;

inline void storeAs( const char * tn, void * p, int64_t v )
{
  switch( tn[0] )
  {
    case 'd': *static_cast< double * >( p ) = numberToElem< double >( v ); return;
    case 'f': *static_cast< float * >( p ) = numberToElem< float >( v ); return;
    default:
      if( tn[3] == 0 ) *static_cast< int * >( p ) = static_cast< int >( v );
      else if( tn[3] == '8' ) *static_cast< int8_t * >( p ) = static_cast< int8_t >( v );
      else if( tn[3] == '1' ) *static_cast< int16_t * >( p ) = static_cast< int16_t >( v );
      else *static_cast< int64_t * >( p ) = v;
  }
}
inline int64_t loadAs( const char * tn, const void * p )
{
  switch( tn[0] )
  {
    case 'd': return elemToNumber( *static_cast< const double * >( p ) );
    case 'f': return elemToNumber( *static_cast< const float * >( p ) );
    default:
      if( tn[3] == 0 ) return *static_cast< const int * >( p );
      if( tn[3] == '8' ) return *static_cast< const int8_t * >( p );
      if( tn[3] == '1' ) return *static_cast< const int16_t * >( p );
      return *static_cast< const int64_t * >( p );
  }
}
// values the element type can hold, among them negative zeros, infinities, quiet NaNs and the smallest and largest numbers
inline int64_t genValue( sim::Rng & r, const char * tn )
{
  if( tn[0] == 'd' )
  {
    static const double odd[] = { 0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 5e-324, 1e-310, HUGE_VAL, -HUGE_VAL, 0.1, 3e9 };
    if( r.chance( 150 ) ) return r.chance( 200 ) ? 0x7ff8000000000000ll + r.range( 0, 0xffff ) : elemToNumber( odd[r.below( 12 )] );
    return elemToNumber( static_cast< double >( r.range( -2000000000, 2000000000 ) ) / static_cast< double >( r.range( 1, 1000 ) ) );
  }
  if( tn[0] == 'f' )
  {
    static const float odd[] = { 0.0f, -0.0f, 1.0f, -1.0f, 1e38f, -1e38f, 1e-45f, 1e-40f, HUGE_VALF, -HUGE_VALF, 0.1f, 3e9f };
    if( r.chance( 150 ) ) return r.chance( 200 ) ? 0x7fc00000 + r.range( 0, 0xffff ) : elemToNumber( odd[r.below( 12 )] );
    return elemToNumber( static_cast< float >( r.range( -2000000000, 2000000000 ) ) / static_cast< float >( r.range( 1, 1000 ) ) );
  }
  if( tn[3] == 0 ) return r.chance( 100 ) ? ( r.chance( 500 ) ? INT32_MIN : INT32_MAX ) : r.range( -2000000000, 2000000000 );
  if( tn[3] == '8' ) return r.range( -128, 127 );
  if( tn[3] == '1' ) return r.range( -32768, 32767 );
  return r.chance( 100 ) ? ( r.chance( 500 ) ? INT64_MIN : INT64_MAX ) : r.range( -2000000000, 2000000000 ) * r.range( 1, 2000000000 );
}

struct Obj { int ty; void * mem; };
struct Buf
{
  const char * tn; size_t elem; int total;
  char * mem;
  int nobj; Obj obj[MAXOBJ];
  std::vector< int64_t > val;
  std::vector< int8_t > owner;      // -1: nobody writes it in phase 1
  bool owning;                      // object 0 is an array that holds the buffer
  uint64_t oseed; int opat;
};
struct Layout
{
  int nb; Buf b[MAXBUF];
};
inline Layout & lay() { static Layout l; return l; }

inline std::vector< int > viewsFor( const char * tn, int total )
{
  std::vector< int > v;
  for( size_t i = 0; i < tys().size(); ++i ) if( tys()[i].kind && tys()[i].total == total && !std::strcmp( tys()[i].tn, tn ) ) v.push_back( static_cast< int >( i ) );
  return v;
}

// params: nb, then per buffer: first type, nobj, three more types packed, ownership seed, pattern
inline void genLayout( sim::Rng & r, sim::Plan & p )
{
  init();
  int nb = static_cast< int >( r.range( 1, MAXBUF ) );
  p.param[0] = nb;
  p.nparam = 1;
  for( int i = 0; i < nb; ++i )
  {
    int t0;
    bool large = r.chance( 60 );
    do t0 = static_cast< int >( r.below( static_cast< int64_t >( tys().size() ) ) ); while( tys()[static_cast< size_t >( t0 )].large() != large );
    auto vs = viewsFor( tys()[static_cast< size_t >( t0 )].tn, tys()[static_cast< size_t >( t0 )].total );
    int n = vs.empty() ? 1 : static_cast< int >( r.range( 1, MAXOBJ ) );
    int64_t packed = n;
    packed = packed * 64 + t0;
    for( int k = 1; k < MAXOBJ; ++k ) packed = packed * 64 + ( k < n ? vs[static_cast< size_t >( r.below( static_cast< int64_t >( vs.size() ) ) )] : 0 );
    p.param[p.nparam++] = packed;
    p.param[p.nparam++] = r.range( 1, 1000000 );
    p.param[p.nparam++] = r.below( 4 );
  }
}

inline void readLayout( sim::Plan const & p )
{
  init();
  Layout & l = lay();
  l = Layout{};
  l.nb = static_cast< int >( p.param[0] );
  for( int i = 0; i < l.nb; ++i )
  {
    Buf & b = l.b[i];
    int64_t q = p.param[1 + 3 * i];
    for( int k = MAXOBJ - 1; k >= 0; --k ) { b.obj[k].ty = static_cast< int >( q % 64 ); q /= 64; }
    b.nobj = static_cast< int >( q );
    Ty const & y = tys()[static_cast< size_t >( b.obj[0].ty )];
    b.tn = y.tn; b.elem = y.elem; b.total = y.total; b.owning = y.kind == 0;
    sim::Rng r( static_cast< uint64_t >( p.param[2 + 3 * i] ) );
    int pat = static_cast< int >( p.param[3 + 3 * i] );
    int cur = 0;
    b.val.resize( static_cast< size_t >( b.total ) ); b.owner.resize( static_cast< size_t >( b.total ) );
    for( int e = 0; e < b.total; ++e )
    {
      b.val[static_cast< size_t >( e )] = genValue( r, b.tn );
      switch( pat )
      {
        case 0: b.owner[static_cast< size_t >( e )] = static_cast< int8_t >( e % p.nthreads ); break;                                           // neighbours belong to different threads
        case 1: b.owner[static_cast< size_t >( e )] = static_cast< int8_t >( r.chance( 250 ) ? -1 : static_cast< int >( r.below( p.nthreads ) ) ); break;
        case 2: b.owner[static_cast< size_t >( e )] = -1; break;
        default: if( r.chance( 300 ) ) cur = static_cast< int >( r.range( -1, p.nthreads - 1 ) ); b.owner[static_cast< size_t >( e )] = static_cast< int8_t >( cur ); break;
      }
    }
  }
}

inline void makeObjects()
{
  Layout & l = lay();
  for( int i = 0; i < l.nb; ++i )
  {
    Buf & b = l.b[i];
    b.mem = static_cast< char * >( sim::arenaAlloc( b.elem * static_cast< size_t >( b.total ), 16 ) );
    for( int k = 0; k < b.nobj; ++k )
    {
      Ty const & y = tys()[static_cast< size_t >( b.obj[k].ty )];
      if( k == 0 && b.owning ) b.obj[k].mem = b.mem;
      else b.obj[k].mem = sim::arenaAlloc( y.objSize, 16 );
      y.create( b.obj[k].mem, b.mem );
    }
    for( int e = 0; e < b.total; ++e ) storeAs( b.tn, b.mem + static_cast< size_t >( e ) * b.elem, b.val[static_cast< size_t >( e )] );
  }
}

inline void unlin( Ty const & y, int lin, int64_t * idx )
{
  for( int k = y.rank - 1; k >= 0; --k ) { idx[k] = lin % y.dims[k]; lin /= y.dims[k]; }
}
inline int lin( Ty const & y, const int64_t * idx ) { int l = 0; for( int k = 0; k < y.rank; ++k ) l = l * y.dims[k] + static_cast< int >( idx[k] ); return l; }

// index types that hold the indices of an element
inline int pickTypes( sim::Rng & r, Ty const & y, int li )
{
  int64_t idx[MAXRANK]; unlin( y, li, idx );
  for( ;; )
  {
    int c = static_cast< int >( r.below( NCOMBO ) );
    bool ok = true;
    for( int k = 0; k < y.rank; ++k ) ok = ok && fits( comboType( c, k ), idx[k] );
    if( ok ) return c;
  }
}

// the elements the compile-time path of a large array is instantiated for
inline int snap( Ty const & y, int path, int li ) { if( path != CT || !y.large() ) return li; int q = li / y.ctStep(); return ( q > 28 ? 28 : q ) * y.ctStep(); }

// held slices, per thread
struct Slot { int buf, obj, path; int64_t pre[2]; void * mem; };
inline Slot & slot( int tid, int s ) { static Slot t[sim::MAXT][MAXSLOT]; return t[tid][s]; }
inline void makeSlots( int n )
{
  for( int t = 0; t < n; ++t ) for( int s = 0; s < MAXSLOT; ++s ) { Slot & q = slot( t, s ); q.buf = -1; q.mem = sim::arenaAlloc( 16, 16 ); }
}
// returns true when the slot already held that slice
inline bool ensureSlice( int tid, int s, int buf, int obj, int path, const int64_t * idx, bool force )
{
  Slot & q = slot( tid, s );
  Obj & o = lay().b[buf].obj[obj];
  Ty const & y = tys()[static_cast< size_t >( o.ty )];
  int d = y.sliceDims( path );
  bool same = q.buf == buf && q.obj == obj && q.path == path && q.pre[0] == idx[0] && ( d < 2 || q.pre[1] == idx[1] );
  if( same && !force ) return true;
  q.buf = -1;
  y.take[path - SL1]( o.mem, idx, q.mem );
  q.buf = buf; q.obj = obj; q.path = path; q.pre[0] = idx[0]; q.pre[1] = d > 1 ? idx[1] : 0;
  return false;
}
inline int pickPath( sim::Rng & r, Ty const & y, bool constOK, bool ctOK )
{
  for( ;; )
  {
    int p = static_cast< int >( r.below( NPATH ) );
    if( !y.path[p] ) continue;
    if( !constOK && isConstPath( p ) ) continue;
    if( !ctOK && ( p == CT || p == RAW ) ) continue;
    return p;
  }
}
} // namespace arr
