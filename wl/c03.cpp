// C03: array elements as independent registers, through every access path.
#include "arr_model.hpp"
using namespace arr;

namespace c03
{
enum { WRITE, READ, TAKE, COPY, ASSIGN, VIEW, LIST, NKIND };
static const char * kinds[] = { "write", "read", "take-slice", "copy-object", "assign-array", "make-view", "make-from-list" };
static void * g_copy[sim::MAXOPS];
}
using namespace c03;

namespace sim
{
const char * wlName() { return "c03"; }
int wlKinds() { return NKIND; }
const char * wlKindName( int k ) { return kinds[k]; }
const char * wlProbeName( int i )
{
  static const char * n[] = { "slice used after other operations", "write and read of one element through different paths", "neighbouring element belongs to another thread", "access to an element of one byte", "access to an element beyond 16 bits of linear index" };
  return i < 5 ? n[i] : nullptr;
}

// args: buffer, object, path, index types / slot, linear index, value
void wlGen( Rng & r, Plan & p, int )
{
  p.nthreads = static_cast< int >( r.range( 2, 4 ) );
  genPolicy( r, p );
  genLayout( r, p );
  readLayout( p );
  Layout & l = lay();
  struct { int buf, obj, path, li, slot; } held[MAXT][4];
  for( auto & h : held ) for( auto & s : h ) s.buf = -1;
  auto mk = [&]( int phase, int tid, int ab, int al ) -> Op *
  {
    for( int tries = 0; tries < 40; ++tries )
    {
      int bi = static_cast< int >( r.below( l.nb ) );
      Buf & b = l.b[bi];
      int oi = static_cast< int >( r.below( b.nobj ) );
      int li = static_cast< int >( r.below( b.total ) );
      int slotNo = static_cast< int >( r.below( 4 ) );
      Ty const * y = &tys()[static_cast< size_t >( b.obj[oi].ty )];
      bool solo = phase == 0 || phase == 2;
      int kind = r.chance( 480 ) ? WRITE : READ;
      if( solo && r.chance( 80 ) ) kind = r.chance( 500 ) ? COPY : ASSIGN;
      else if( r.chance( 120 ) ) kind = TAKE;
      else if( r.chance( 60 ) ) kind = r.chance( 600 ) ? VIEW : LIST;
      int path = -1;
      if( kind <= READ && phase != -1 && r.chance( 350 ) && held[tid][slotNo].buf >= 0 )
      {
        // an element below a slice taken earlier
        auto & h = held[tid][slotNo];
        bi = h.buf; oi = h.obj; path = h.path;
        Buf & hb = l.b[bi]; y = &tys()[static_cast< size_t >( hb.obj[oi].ty )];
        int64_t a[MAXRANK], c[MAXRANK]; unlin( *y, h.li, a ); unlin( *y, static_cast< int >( r.below( hb.total ) ), c );
        for( int k = 0; k < y->sliceDims( path ); ++k ) c[k] = a[k];
        li = lin( *y, c );
        if( isConstPath( path ) ) kind = READ;
      }
      Buf & b2 = l.b[bi];
      if( bi == ab && li == al ) continue;
      int own = b2.owner[li];
      if( !solo && own != tid && own != -1 ) continue;
      if( kind == WRITE && ( y->kind == 2 || ( !solo && own != tid ) ) ) continue;
      if( kind == ASSIGN )
      {
        int other = -1;
        for( int k = 0; k < l.nb; ++k ) if( k != bi && l.b[k].owning && b2.owning && l.b[k].obj[0].ty == b2.obj[0].ty ) other = k;
        if( other < 0 ) continue;
        Op & o = addOp( p, phase, tid, kind ); addArg( o, bi ); addArg( o, other );
        return &o;
      }
      if( kind == VIEW && !y->kind ) continue;
      if( kind == LIST && !y->list ) continue;
      if( kind == TAKE )
      {
        if( y->rank < 2 ) continue;
        do path = static_cast< int >( r.range( SL1, SL2C ) ); while( !y->path[path] );
        if( phase != -1 ) held[tid][slotNo] = { bi, oi, path, li, slotNo };
      }
      else if( path < 0 )
      {
        path = pickPath( r, *y, kind == READ || kind == COPY || kind == VIEW || kind == LIST, true );
        int s = snap( *y, path, li );
        if( s != li )
        {
          int w = b2.owner[static_cast< size_t >( s )];
          if( ( bi == ab && s == al ) || ( !solo && ( ( w != tid && w != -1 ) || ( kind == WRITE && w != tid ) ) ) ) continue;
          li = s;
        }
      }
      Op & o = addOp( p, phase, tid, kind );
      addArg( o, bi ); addArg( o, oi ); addArg( o, path );
      addArg( o, isSlice( path ) ? ( phase == -1 ? 4 + slotNo : slotNo ) + 16 * r.below( 3 ) : pickTypes( r, *y, li ) );
      addArg( o, li );
      if( kind == WRITE || kind == COPY ) addArg( o, genValue( r, b2.tn ) );
      if( kind == LIST ) { addArg( o, r.range( 1, 1000000 ) ); addArg( o, r.below( 3 ) ); }
      return &o;
    }
    return nullptr;
  };
  bool faults = r.chance( 600 );
  int pre = static_cast< int >( r.range( 0, 10 ) );
  for( int i = 0; i < pre; ++i ) mk( 0, 0, -1, -1 );
  int per = static_cast< int >( r.range( 2, 14 ) );
  for( int t = 0; t < p.nthreads; ++t )
    for( int j = 0; j < per; ++j )
    {
      Op * o = mk( 1, t, -1, -1 );
      if( !o || !faults ) continue;
      int id = o->id;
      if( r.chance( 250 ) && p.nops + 2 < MAXOPS )
      {
        Op * n = mk( -1, t, static_cast< int >( o->a[0] ), o->kind == TAKE ? -1 : static_cast< int >( o->a[4] ) );
        if( n ) addFault( p.ops[id], F_INTERRUPT, r.below( 1000 ), n->id );
      }
      if( r.chance( 100 ) ) addFault( p.ops[id], F_STALL, r.below( 1000 ) );
    }
  int post = static_cast< int >( r.range( 1, 10 ) );
  for( int i = 0; i < post; ++i ) mk( 2, p.nthreads - 1, -1, -1 );
}

void wlSetup( Plan const & p )
{
  readLayout( p );
  makeObjects();
  makeSlots( p.nthreads );
  for( int i = 0; i < p.nops; ++i ) if( p.ops[i].kind == COPY || p.ops[i].kind == VIEW || p.ops[i].kind == LIST )
  {
    Obj & o = lay().b[p.ops[i].a[0]].obj[p.ops[i].a[1]];
    size_t n = tys()[static_cast< size_t >( o.ty )].objSize;
    g_copy[p.ops[i].id] = arenaAlloc( n, 16 );
    ref::junk( g_copy[p.ops[i].id], n, p.seed + static_cast< uint64_t >( i ) );
  }
}

static void * reach( Op const & o, Ty const & y, void * obj, int path, const int64_t * idx, int tsel )
{
  return y.path[path]( obj, idx, tsel );
  (void)o;
}

void wlOp( Op const & o )
{
  Layout & l = lay();
  Buf & b = l.b[o.a[0]];
  size_t bytes = b.elem * static_cast< size_t >( b.total );
  if( o.kind == ASSIGN )
  {
    Buf & s = l.b[o.a[1]];
    { Window w; tys()[static_cast< size_t >( b.obj[0].ty )].assignTo( b.mem, s.mem ); }
    b.val = s.val;
    return;
  }
  Obj & ob = b.obj[o.a[1]];
  Ty const & y = tys()[static_cast< size_t >( ob.ty )];
  int path = static_cast< int >( o.a[2] ), li = static_cast< int >( o.a[4] );
  int tsel = static_cast< int >( o.a[3] );
  int64_t idx[MAXRANK] = {};
  unlin( y, li, idx );
  char * el = b.mem + static_cast< size_t >( li ) * b.elem;
  const char * pn = pathNames[path];
  if( o.kind == TAKE )
  {
    confine( b.mem, bytes, nullptr, 0, false );
    { Window w; ensureSlice( self(), tsel % 16, static_cast< int >( o.a[0] ), static_cast< int >( o.a[1] ), path, idx, true ); }
    unconfine();
    return;
  }
  if( o.kind == VIEW )
  {
    // making a view reads and writes no element; it names the same elements
    void * c = g_copy[o.id], * q;
    confine( b.mem, bytes, nullptr, 0, false );
    { Window w; y.create( c, b.mem ); q = y.path[CALL]( c, idx, 0 ); }
    unconfine();
    if( q != el ) fail( "wrong-element", "%s: index %d of %d of a new view refers to byte %+ld of the storage, expected %ld", y.name, li, b.total, static_cast< long >( static_cast< char * >( q ) - b.mem ), static_cast< long >( el - b.mem ) );
    return;
  }
  if( o.kind == LIST )
  {
    // an array made from a list of numbers holds them in row-major order, and zeros after them
    void * c = g_copy[o.id];
    int n = y.listed( static_cast< int >( o.a[6] ) );
    int64_t v[64];
    Rng r( static_cast< uint64_t >( o.a[5] ) );
    for( int e = 0; e < 64; ++e ) v[e] = genValue( r, b.tn );
    { Window w; y.list( c, static_cast< int >( o.a[6] ), v ); }
    for( int e = 0; e < b.total; ++e )
    {
      int64_t ix[MAXRANK]; unlin( y, e, ix );
      int64_t got;
      { Window w; got = loadAs( b.tn, y.path[path == SL1 || path == SL1C || path == SL2 || path == SL2C || path == CT ? CALL : path]( c, ix, 0 ) ); }
      int64_t want = e < n ? v[e] : 0;
      if( got != want ) fail( "wrong-value", "%s: element %d of an array made from %d numbers is %lld, expected %lld", y.name, e, n, static_cast< long long >( got ), static_cast< long long >( want ) );
    }
    return;
  }
  if( o.kind == COPY )
  {
    void * c = g_copy[o.id];
    { Window w; y.copyTo( c, ob.mem ); }
    for( int e = 0; e < b.total; e += y.large() ? b.total / 40 : 1 )
    {
      int64_t ix[MAXRANK]; unlin( y, e, ix );
      void * q;
      int64_t got;
      { Window w; q = y.path[CALL]( c, ix, 0 ); got = loadAs( b.tn, q ); }
      if( got != b.val[e] ) fail( "wrong-value", "%s: element %d of a copy is %lld, the source held %lld", y.name, e, static_cast< long long >( got ), static_cast< long long >( b.val[e] ) );
      bool own = y.kind == 0;
      if( own == ( static_cast< char * >( q ) >= b.mem && static_cast< char * >( q ) < b.mem + bytes ) )
        fail( own ? "copy-shares-storage" : "view-copy-lost-storage", "%s: element %d of the copy %s the source's storage", y.name, e, own ? "lies in" : "does not lie in" );
    }
    if( y.kind == 0 ) { Window w; storeAs( b.tn, y.path[CALL]( c, idx, 0 ), o.a[5] ); }   // must not show in the source
    return;
  }
  bool wr = o.kind == WRITE;
  if( b.elem == 1 ) probe( 3 );
  if( li > 65535 ) probe( 4 );
  if( li && b.owner[li - 1] != b.owner[li] ) probe( 2 );
  confine( b.mem, bytes, el, b.elem, wr );
  void * q; int64_t got = 0;
  {
    Window w;
    if( isSlice( path ) )
    {
      if( ensureSlice( self(), tsel % 16, static_cast< int >( o.a[0] ), static_cast< int >( o.a[1] ), path, idx, false ) ) probe( 0 );
      q = y.path[path]( slot( self(), tsel % 16 ).mem, idx, tsel / 16 );
    }
    else q = reach( o, y, ob.mem, path, idx, tsel );
    if( q == el ) { if( wr ) storeAs( b.tn, q, o.a[5] ); else got = loadAs( b.tn, q ); }
  }
  unconfine();
  if( q != el )
    fail( "wrong-element", "%s through %s: index %d of %d refers to byte %+ld of the storage, expected %ld", y.name, pn, li, b.total,
          static_cast< long >( static_cast< char * >( q ) - b.mem ), static_cast< long >( el - b.mem ) );
  if( wr ) { b.val[li] = o.a[5]; probe( 1 ); }
  else if( got != b.val[li] )
    fail( "wrong-value", "%s through %s: element %d reads %lld, the last value written is %lld", y.name, pn, li, static_cast< long long >( got ), static_cast< long long >( b.val[li] ) );
}

void wlFinish()
{
  Layout & l = lay();
  for( int i = 0; i < l.nb; ++i ) for( int e = 0; e < l.b[i].total; ++e )
  {
    int64_t g = loadAs( l.b[i].tn, l.b[i].mem + static_cast< size_t >( e ) * l.b[i].elem );
    if( g != l.b[i].val[e] ) fail( "wrong-value", "at the end element %d of buffer %d holds %lld, the last value written is %lld", e, i, static_cast< long long >( g ), static_cast< long long >( l.b[i].val[e] ) );
  }
}
void wlTerminated( Op const *, int, int ) {}
} // namespace sim
