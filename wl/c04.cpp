// C04: out-of-range accesses, concurrently with valid ones, with a failing diagnostic channel.
#include "arr_model.hpp"
using namespace arr;

namespace c04
{
enum { WRITE, READ, TAKE, NKIND };
static const char * kinds[] = { "write", "read", "take-slice" };
static bool g_expectDead[sim::MAXOPS], g_started[sim::MAXOPS], g_dead[sim::MAXOPS];
static int g_terms;

// bits of the type the index of position k is passed in, and whether it is signed
static int typeAt( int path, int tsel, int k ) { return path == CALLT || path == CCALLT ? comboType( tsel, k ) : 0; }
static int width( int t ) { return t >= 8 ? ( t == 8 ? 1 : t == 9 ? 32 : 64 ) : t <= 1 ? 32 : t <= 3 ? 64 : t <= 5 ? 8 : 16; }
static bool isSigned( int t ) { return t > 8 || ( t < 8 && t % 2 == 0 ); }
static int64_t flip( int64_t v, int type, int bit )
{
  int w = width( type );
  bit %= w;
  if( bit == w - 1 && isSigned( type ) ) return v - ( w == 64 ? INT64_MIN : ( int64_t( 1 ) << bit ) );
  if( bit == 63 ) return v | INT64_MIN;        // as unsigned 64-bit
  return v ^ ( int64_t( 1 ) << bit );
}
static bool inRange( Ty const & y, const int64_t * idx ) { for( int k = 0; k < y.rank; ++k ) if( idx[k] < 0 || idx[k] >= y.dims[k] ) return false; return true; }
static void indices( sim::Op const & o, int64_t * idx )
{
  Ty const & y = tys()[static_cast< size_t >( lay().b[o.a[0]].obj[o.a[1]].ty )];
  for( int k = 0; k < MAXRANK; ++k ) idx[k] = k < y.rank ? o.a[5 + k] : 0;
  const sim::FaultSpec * f = sim::faultOf( o, sim::F_BITFLIP );
  if( f )
  {
    int k = static_cast< int >( f->p0 ) % y.rank;
    idx[k] = flip( idx[k], typeAt( static_cast< int >( o.a[2] ), static_cast< int >( o.a[3] ), k ), static_cast< int >( f->p1 ) );
  }
}
// how many leading indices the operation uses
static int used( sim::Op const & o, Ty const & y ) { return o.kind == TAKE ? y.sliceDims( static_cast< int >( o.a[2] ) ) : y.rank; }
static bool bad( sim::Op const & o, Ty const & y, const int64_t * idx )
{
  for( int k = 0; k < used( o, y ); ++k ) if( idx[k] < 0 || idx[k] >= y.dims[k] ) return true;
  return false;
}
}
using namespace c04;

namespace sim
{
const char * wlName() { return "c04"; }
int wlKinds() { return NKIND; }
const char * wlKindName( int k ) { return kinds[k]; }
const char * wlProbeName( int i )
{
  static const char * n[] = { "out-of-range access", "out-of-range index whose linear index is in range", "index equal to the dimension", "negative index", "index only wrong beyond 32 bits",
                              "two threads out of range in one run", "diagnostic could not be written", "valid access after another thread failed", "out-of-range slice", "bit flip left the index in range" };
  return i < 10 ? n[i] : nullptr;
}

// args: buffer, object, path, index types / slot, value, indices
void wlGen( Rng & r, Plan & p, int )
{
  p.nthreads = static_cast< int >( r.range( 2, 4 ) );
  genPolicy( r, p );
  genLayout( r, p );
  readLayout( p );
  Layout & l = lay();
  auto mk = [&]( int phase, int tid, int ab, int al, int badPermille ) -> Op *
  {
    for( int tries = 0; tries < 40; ++tries )
    {
      int bi = static_cast< int >( r.below( l.nb ) );
      Buf & b = l.b[bi];
      int oi = static_cast< int >( r.below( b.nobj ) );
      int li = static_cast< int >( r.below( b.total ) );
      Ty const & y = tys()[static_cast< size_t >( b.obj[oi].ty )];
      bool solo = phase == 0;
      int kind = r.chance( 450 ) ? WRITE : READ;
      if( r.chance( 150 ) && y.rank > 1 ) kind = TAKE;
      if( bi == ab && li == al ) continue;
      if( kind == WRITE && y.kind == 2 ) kind = READ;
      int own = b.owner[li];
      if( !solo && own != tid && own != -1 ) continue;
      if( kind == WRITE && !solo && own != tid ) continue;
      int path;
      if( kind == TAKE ) { do path = static_cast< int >( r.range( SL1, SL2C ) ); while( !y.path[path] ); }
      else path = pickPath( r, y, kind == READ, r.chance( 100 ) );
      if( snap( y, path, li ) != li ) continue;
      bool wantBad = path != CT && path != RAW && r.chance( badPermille );
      Op & o = addOp( p, phase, tid, kind );
      addArg( o, bi ); addArg( o, oi ); addArg( o, path );
      int tsel = isSlice( path ) ? static_cast< int >( ( phase == -1 ? 4 : 0 ) + r.below( 4 ) + 16 * r.below( 3 ) ) : pickTypes( r, y, li );
      addArg( o, tsel ); addArg( o, genValue( r, b.tn ) );
      int64_t idx[MAXRANK]; unlin( y, li, idx );
      if( wantBad )
      {
        int n = kind == TAKE ? y.sliceDims( path ) : y.rank;
        int k = static_cast< int >( r.below( n ) );
        int ty = typeAt( path, tsel, k );
        int64_t v = idx[k], d = y.dims[k];
        bool flipIt = false;
        switch( r.below( 6 ) )
        {
          case 0: v = d; break;
          case 1: v = -1; break;
          case 2: v = d + r.range( 0, 3 * b.total ); break;
          case 3: v = -1 - r.range( 0, 3 * b.total ); break;
          case 4: v = y.total - idx[k]; if( v < d ) v = d; break;
          default: flipIt = true;
        }
        if( ( ty == 3 && v < 0 ) ) v = INT64_MAX;        // largest value the plan can hold
        if( !fits( ty, v ) ) flipIt = true;
        if( flipIt ) addFault( o, F_BITFLIP, k, r.below( width( ty ) ) );
        else idx[k] = v;
      }
      for( int k = 0; k < y.rank; ++k ) addArg( o, idx[k] );
      if( o.nf )
      {
        // a flip that stays in range may only reach an element the thread may use
        int64_t fx[MAXRANK]; indices( o, fx );
        if( inRange( y, fx ) )
        {
          int l2 = lin( y, fx ), w = b.owner[l2];
          if( ( bi == ab && l2 == al ) || ( w != tid && ( w != -1 || kind == WRITE ) && !solo ) ) o.nf = 0;
        }
      }
      return &o;
    }
    return nullptr;
  };
  bool faults = r.chance( 700 );
  int pre = static_cast< int >( r.range( 0, 4 ) );
  for( int i = 0; i < pre; ++i ) mk( 0, 0, -1, -1, 0 );
  int per = static_cast< int >( r.range( 1, 6 ) );
  for( int t = 0; t < p.nthreads; ++t )
  {
    int bp = r.chance( 300 ) ? 0 : r.chance( 500 ) ? 150 : 500;
    for( int j = 0; j < per; ++j )
    {
      Op * o = mk( 1, t, -1, -1, bp );
      if( !o || !faults ) continue;
      int id = o->id;
      int li = -1;
      if( r.chance( 150 ) && p.nops + 2 < MAXOPS )
      {
        int64_t idx[MAXRANK]; indices( *o, idx );
        Ty const & y = tys()[static_cast< size_t >( l.b[o->a[0]].obj[o->a[1]].ty )];
        if( inRange( y, idx ) ) li = lin( y, idx );
        Op * n = mk( -1, t, static_cast< int >( o->a[0] ), li, bp );
        if( n ) addFault( p.ops[id], F_INTERRUPT, r.below( 1000 ), n->id );
      }
      if( r.chance( 350 ) ) { static const int64_t m[] = { 0, 1, 2, 3, 4, 5, 6, 11, 12, 13, 14, 16 }; addFault( p.ops[id], F_IO, r.range( 1, 5 ), m[r.below( 12 )] ); }
      if( r.chance( 80 ) ) addFault( p.ops[id], F_ALLOC, r.range( 1, 3 ), r.chance( 600 ) );
      if( r.chance( 60 ) ) addFault( p.ops[id], F_STALL, r.below( 1000 ) );
    }
  }
}

void wlSetup( Plan const & p )
{
  readLayout( p );
  makeObjects();
  makeSlots( p.nthreads );
  g_termMode = 1;
}

void wlOp( Op const & o )
{
  Buf & b = lay().b[o.a[0]];
  size_t bytes = b.elem * static_cast< size_t >( b.total );
  Obj & ob = b.obj[o.a[1]];
  Ty const & y = tys()[static_cast< size_t >( ob.ty )];
  int path = static_cast< int >( o.a[2] ), tsel = static_cast< int >( o.a[3] );
  int64_t idx[MAXRANK];
  indices( o, idx );
  bool oor = bad( o, y, idx );
  const char * pn = pathNames[path];
  char is[96]; int n = 0;
  for( int k = 0; k < used( o, y ); ++k ) n += std::snprintf( is + n, sizeof is - static_cast< size_t >( n ), "%s%lld", k ? "," : "", static_cast< long long >( idx[k] ) );
  if( faultOf( o, F_BITFLIP ) ) { faultFired( F_BITFLIP ); if( !oor ) probe( 9 ); }
  if( oor )
  {
    probe( 0 );
    for( int k = 0; k < used( o, y ); ++k ) { if( idx[k] == y.dims[k] ) probe( 2 ); if( idx[k] < 0 ) probe( 3 ); if( static_cast< int64_t >( static_cast< int32_t >( idx[k] ) ) != idx[k] && static_cast< int32_t >( idx[k] ) >= 0 && static_cast< int32_t >( idx[k] ) < y.dims[k] ) probe( 4 ); }
    int64_t ll = 0; for( int k = 0; k < used( o, y ); ++k ) ll = ll * y.dims[k] + idx[k];
    if( ll >= 0 && ll < b.total ) probe( 1 );
    if( isSlice( path ) ) probe( 8 );
  }
  g_expectDead[o.id] = oor; g_started[o.id] = true;
  int li = oor || o.kind == TAKE ? -1 : lin( y, idx );
  char * el = li < 0 ? nullptr : b.mem + static_cast< size_t >( li ) * b.elem;
  bool wr = o.kind == WRITE;
  if( !oor && g_terms ) probe( 7 );
  confine( b.mem, bytes, el, el ? b.elem : 0, wr );
  void * q = nullptr; int64_t got = 0;
  try
  {
    Window w;
    if( isSlice( path ) )
    {
      ensureSlice( self(), tsel % 16, static_cast< int >( o.a[0] ), static_cast< int >( o.a[1] ), path, idx, o.kind == TAKE );
      if( o.kind != TAKE ) q = y.path[path]( slot( self(), tsel % 16 ).mem, idx, tsel / 16 );
    }
    else q = y.path[path]( ob.mem, idx, tsel );
    if( !oor && el && q == el ) { if( wr ) storeAs( b.tn, q, o.a[4] ); else got = loadAs( b.tn, q ); }
  }
  catch( ... ) { leave(); fail( oor ? "returned-to-caller" : "unexpected-exception", "%s through %s: index (%s) threw an exception", y.name, pn, is ); }
  unconfine();
  if( oor ) fail( "returned-to-caller", "%s through %s: out-of-range index (%s) did not terminate the process", y.name, pn, is );
  if( o.kind == TAKE ) return;
  if( q != el ) fail( "wrong-element", "%s through %s: index (%s) refers to byte %+ld of the storage, expected %ld", y.name, pn, is, static_cast< long >( static_cast< char * >( q ) - b.mem ), static_cast< long >( el - b.mem ) );
  if( wr ) b.val[li] = o.a[4];
  else if( got != b.val[li] ) fail( "wrong-value", "%s through %s: element (%s) reads %lld, the last value written is %lld", y.name, pn, is, static_cast< long long >( got ), static_cast< long long >( b.val[li] ) );
}

void wlTerminated( Op const * o, int kind, int code )
{
  if( !o || !g_expectDead[o->id] ) fail( "valid-access-terminated", "an access whose indices are all in range terminated the process" );
  if( kind == T_EXIT && code == 0 ) fail( "exit-reports-success", "an out-of-range access ended the process with a success status" );
  g_dead[o->id] = true;
  ++g_terms;
  if( g_terms == 2 ) probe( 5 );
  if( faultOf( *o, F_IO ) ) probe( 6 );
}

void wlFinish()
{
  Layout & l = lay();
  for( int i = 0; i < l.nb; ++i ) for( int e = 0; e < l.b[i].total; ++e )
  {
    int64_t g = loadAs( l.b[i].tn, l.b[i].mem + static_cast< size_t >( e ) * l.b[i].elem );
    if( g != l.b[i].val[e] ) fail( "wrong-value", "at the end element %d of buffer %d holds %lld, the last value written is %lld", e, i, static_cast< long long >( g ), static_cast< long long >( l.b[i].val[e] ) );
  }
}
} // namespace sim
