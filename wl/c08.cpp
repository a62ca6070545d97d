// C08: kernels launched through the wrappers, on the host and on a simulated device with failing calls and faulting kernels.
#include "common.hpp"
#include "exc.hpp"
#include "shiva/common/pmpl.hpp"

namespace c08
{
enum { DATA, NODATA, BIG, DEALLOC, DEVICE, NKIND };
static const char * kinds[] = { "launch-with-data", "launch-without-data", "launch-with-huge-data", "deallocate", "device" };
#if defined( SHIVA_ENABLE_DEVICE )
constexpr bool DEV = true;
#else
constexpr bool DEV = false;
#endif

struct Rec { double a; int b; short c; char d[10]; };       // 24 bytes
template< typename T > T make( int64_t v ) { return static_cast< T >( v ); }
template<> Rec make< Rec >( int64_t v ) { Rec r; r.a = static_cast< double >( v ); r.b = static_cast< int >( v * 3 ); r.c = static_cast< short >( v ); for( int i = 0; i < 10; ++i ) r.d[i] = static_cast< char >( v + i ); return r; }
template< typename T > bool same( T const & x, T const & y ) { return x == y; }
template<> bool same< Rec >( Rec const & x, Rec const & y ) { return x.a == y.a && x.b == y.b && x.c == y.c && std::memcmp( x.d, y.d, 10 ) == 0; }
template< typename T > int64_t num( T const & x ) { return static_cast< int64_t >( x ); }
template<> int64_t num< Rec >( Rec const & x ) { return static_cast< int64_t >( x.a ); }

struct Big { char c[( size_t( 1 ) << 30 ) + 16]; };       // four of these are 4 GiB and 64 bytes: more than any simulated device holds

constexpr int MAXN = 40;
// an array of objects: released as an array, each object destroyed once
struct Owned
{
  static thread_local int alive, arrays, singles;
  uint64_t mark = 0x600d600d600d600dull;
  Owned() { ++alive; }
  ~Owned() { if( mark != 0x600d600d600d600dull ) alive = 1 << 20; mark = 0; --alive; }
  static void * operator new[]( size_t n ) { return ::operator new[]( n ); }
  static void operator delete[]( void * p ) { ++arrays; ::operator delete[]( p ); }
  static void operator delete( void * ) { ++singles; }
};
thread_local int Owned::alive, Owned::arrays, Owned::singles;
struct State
{
  int runs; bool started, finished, faulted, over;
  int n, lo, step;
  void * host;
  bool * wrote;
  int64_t * init, * val;        // held before; written by the kernel
};
static State * g_st;
static int g_device = -1;
static int g_left[sim::MAXT];
static bool g_dead[sim::MAXT];

// the kernel: rewrites elements lo, lo+step, ... from what it finds there
template< typename T >
struct Kernel
{
  int op, n, lo, step, faultAt, faultType;
  void begin() const
  {
    State & s = g_st[op];
    sim::leave();
    if( ++s.runs > 1 ) sim::fail( "kernel-ran-twice", "the kernel of op %d runs again", op );
    if( s.over ) sim::fail( "kernel-ran-late", "the kernel of op %d starts after the wrapper has returned", op );
    s.started = true;
    sim::enter();
  }
  void end() const { sim::leave(); g_st[op].finished = true; sim::enter(); }
  void operator()() const
  {
    begin();
    sim::yieldPoint( "kernel" );
    fault( 0 );
    sim::yieldPoint( "kernel" );
    end();
  }
  void fault( int k ) const
  {
#if defined( SHIVA_ENABLE_DEVICE )
    if( faultAt == k + 1 ) { sim::leave(); g_st[op].faulted = true; g_st[op].finished = true; sim::faultFired( sim::F_THROW ); sim::enter(); throw simdev::DeviceFault{ simdev::E_ILLEGAL }; }
#else
    if( faultAt == k + 1 ) { sim::leave(); g_st[op].faulted = true; g_st[op].finished = true; sim::faultFired( sim::F_THROW ); exc::raise( faultType, op, faultAt ); }
#endif
  }
  void operator()( T * const data ) const
  {
    begin();
    State & s = g_st[op];
    sim::leave();
#if defined( SHIVA_ENABLE_DEVICE )
    if( n && !simdev::liveRange( data, sizeof( T ) * static_cast< size_t >( n ) ) ) sim::fail( "invalid-device-pointer", "the kernel of op %d was given a pointer that is not device memory for %d elements", op, n );
#else
    if( data != s.host ) sim::fail( "wrong-data", "the kernel of op %d was given other data than the caller's array", op );
#endif
    sim::enter();
    int k = 0;
    for( int i = lo; i < n; i += step, ++k )
    {
      fault( k );
      T old = data[i];
      int64_t v = ( num( old ) * 5 + op + 3 * i ) & 63;
      data[i] = make< T >( v );
      sim::leave(); s.wrote[i] = true; s.val[i] = v; sim::enter();
    }
    fault( k );
    end();
  }
};

// the kernel of a launch with huge data: touches nothing
struct BigKernel
{
  int op, n;
  void operator()( Big * const data ) const
  {
    Kernel< int > const k{ op, 0, 0, 1, 0, 0 };
    k.begin();
    sim::leave();
#if defined( SHIVA_ENABLE_DEVICE )
    if( !simdev::liveRange( data, sizeof( Big ) * static_cast< size_t >( n ) ) ) sim::fail( "invalid-device-pointer", "the kernel of op %d was given a pointer that is not device memory for %d elements of %zu bytes", op, n, sizeof( Big ) );
#else
    if( data != g_st[op].host ) sim::fail( "wrong-data", "the kernel of op %d was given other data than the caller's array", op );
#endif
    sim::enter();
    k.end();
  }
};
static void settle( int op )       // the operation is over: nothing of it may happen any more
{
  g_st[op].over = true;
}
static bool reported( int op ) { for( size_t i = 0; i < sim::outSize(); ++i ) if( sim::outAt( i ).op == op ) return true; return false; }
static int errors( int op )
{
#if defined( SHIVA_ENABLE_DEVICE )
  return simdev::stat( op ).errs;
#else
  return 0;
#endif
}
static void checkReleased( int op )
{
#if defined( SHIVA_ENABLE_DEVICE )
  if( int k = simdev::unreleased( op ) ) sim::fail( "device-memory-kept", "op %d: %d device allocations were not released", op, k );
#endif
}
static void hostDone( int tid, int n )
{
#if defined( SHIVA_ENABLE_DEVICE )
  if( n > 0 ) simdev::hostOpsDone( n );
#endif
  g_left[tid] -= n;
}

template< typename T >
static void checkData( sim::Op const & o, bool success )
{
  State & s = g_st[o.id];
  T const * h = static_cast< T const * >( s.host );
  for( int i = 0; i < s.n; ++i )
  {
    bool old = same( h[i], make< T >( s.init[i] ) ), now = s.wrote[i] && same( h[i], make< T >( s.val[i] ) );
    bool inPattern = i >= s.lo && ( i - s.lo ) % s.step == 0;
    int64_t want = ( s.init[i] * 5 + o.id + 3 * i ) & 63;
    if( success )
    {
      if( inPattern && !same( h[i], make< T >( want ) ) ) sim::fail( "result-not-visible", "element %d of %d is %lld after the launch, the kernel computes %lld from what the caller's array held", i, s.n, static_cast< long long >( num( h[i] ) ), static_cast< long long >( want ) );
      if( !inPattern && !old ) sim::fail( "other-element-changed", "element %d of %d, which the kernel does not write, changed", i, s.n );
    }
    else if( !old && !now ) sim::fail( "corrupted-by-failure", "after a failed launch element %d of %d holds %lld, neither what it held before nor what the kernel wrote", i, s.n, static_cast< long long >( num( h[i] ) ) );
  }
}

template< typename T >
static void fill( sim::Op const & o )
{
  State & s = g_st[o.id];
  s.host = sim::arenaAlloc( sizeof( T ) * static_cast< size_t >( s.n ? s.n : 1 ), 64 );
  for( int i = 0; i < s.n; ++i ) { s.init[i] = ( o.a[5] + 7 * i ) & 63; static_cast< T * >( s.host )[i] = make< T >( s.init[i] ); }
}
template< typename T >
static void launchOp( sim::Op const & o )
{
  State & s = g_st[o.id];
  const sim::FaultSpec * ft = sim::faultOf( o, sim::F_THROW );
  Kernel< T > k{ o.id, s.n, s.lo, s.step, ft ? static_cast< int >( ft->p0 ) : 0, ft ? static_cast< int >( ft->p1 ) : 0 };
  const Kernel< T > ck = k;
  bool ab = o.a[4] != 0;
  int form = static_cast< int >( o.a[6] );
  sim::Window w;
  if( o.kind == DATA )
  {
    T * h = static_cast< T * >( s.host );
    switch( form )
    {
      case 0: shiva::pmpl::genericKernelWrapper( s.n, h, k, ab ); break;
      case 1: shiva::pmpl::genericKernelWrapper( s.n, h, Kernel< T >{ k }, ab ); break;
      case 2: shiva::pmpl::genericKernelWrapper( s.n, h, ck, ab ); break;
      default:
        if( ab ) shiva::pmpl::genericKernelWrapper( s.n, h, [k]( T * const d ) { k( d ); } );
        else shiva::pmpl::genericKernelWrapper( s.n, h, [k]( T * const d ) { k( d ); }, false );
    }
  }
  else
    switch( form )
    {
      case 0: shiva::pmpl::genericKernelWrapper( k, ab ); break;
      case 1: shiva::pmpl::genericKernelWrapper( Kernel< T >{ k }, ab ); break;
      case 2: shiva::pmpl::genericKernelWrapper( ck, ab ); break;
      default: if( ab ) shiva::pmpl::genericKernelWrapper( [k]() { k(); } ); else shiva::pmpl::genericKernelWrapper( [k]() { k(); }, false );
    }
}
static void launchBig( sim::Op const & o )
{
  BigKernel k{ o.id, static_cast< int >( o.a[1] % 8 + 1 ) };
  Big * h = static_cast< Big * >( g_st[o.id].host );
  sim::Window w;
  shiva::pmpl::genericKernelWrapper( k.n, h, k, o.a[4] != 0 );
}
template< typename T >
static void deallocOp( sim::Op const & o )
{
  size_t n = static_cast< size_t >( o.a[1] ? o.a[1] : 1 );
#if defined( SHIVA_ENABLE_DEVICE )
  void * p = nullptr;
  { sim::Window w; if( simdev::apiMalloc( &p, n * sizeof( T ) ) ) return; }
  { sim::Window w; shiva::pmpl::deallocateData( static_cast< T * >( p ) ); }
  if( simdev::liveRange( p, 1 ) ) sim::fail( "device-memory-kept", "deallocateData did not release the device memory" );
#else
  if( std::is_same_v< T, Rec > )
  {
    Owned * q;
    int const keep[3] = { Owned::alive, Owned::arrays, Owned::singles };      // of an operation this one interrupts
    Owned::alive = Owned::arrays = Owned::singles = 0;
    { sim::Window w; q = new Owned[n]; }
    { sim::Window w; shiva::pmpl::deallocateData( q ); }
    if( Owned::singles || Owned::arrays != 1 || Owned::alive ) sim::fail( "not-released-as-array", "deallocateData on an array of %zu objects: %d objects left, released %d times as an array and %d times as a single object", n, Owned::alive, Owned::arrays, Owned::singles );
    Owned::alive = keep[0]; Owned::arrays = keep[1]; Owned::singles = keep[2];
    return;
  }
  T * p;
  { sim::Window w; p = new T[n]; }
  { sim::Window w; shiva::pmpl::deallocateData( p ); }
  if( !sim::wouldTrap( p ) ) sim::fail( "memory-kept", "deallocateData did not release the array" );
#endif
}
template< typename F > static void byType( sim::Op const & o, F && f )
{
  switch( o.a[0] ) { case 0: f( double() ); break; case 1: f( int() ); break; case 2: f( char() ); break; default: f( Rec() ); }
}
static int hostOps( sim::Plan const & p, int tid ) { int n = 0; for( int i = 0; i < p.nops; ++i ) if( p.ops[i].phase == 1 && p.ops[i].kind != DEVICE && ( tid < 0 || p.ops[i].tid == tid ) ) ++n; return n; }
}
using namespace c08;

namespace sim
{
const char * wlName() { return "c08"; }
int wlKinds() { return NKIND; }
const char * wlKindName( int k ) { return kinds[k]; }
const char * wlProbeName( int i )
{
  static const char * n[] = { "launch that met an error and returned", "launch that met an error and aborted", "kernel fault", "launch after an error in another launch", "empty data array", "launches of two threads in progress together", "array of more than a thousand elements" };
  return i < 7 ? n[i] : nullptr;
}

// args: type, n, lo, step, abort, init, form
void wlGen( Rng & r, Plan & p, int )
{
  int hosts = static_cast< int >( r.range( 1, 3 ) );
  p.nthreads = hosts + 1;
  genPolicy( r, p );
  addOp( p, 1, hosts, DEVICE );
  int faulty = static_cast< int >( r.below( 10 ) );       // 0-2 none, 3-7 failing calls, 8-9 failing calls and kernel faults
  auto mk = [&]( int phase, int tid ) -> Op &
  {
    Op & o = addOp( p, phase, tid, r.chance( 700 ) ? DATA : r.chance( 750 ) ? NODATA : r.chance( 500 ) ? BIG : DEALLOC );
    int n = r.chance( 60 ) ? 0 : static_cast< int >( r.range( 1, r.chance( 200 ) ? MAXN : 9 ) );
    int step = static_cast< int >( r.range( 1, 3 ) ), lo = static_cast< int >( r.chance( 500 ) ? 0 : r.below( n + 1 ) );
    if( o.kind == DATA && r.chance( 25 ) )
    {
      // many elements, some of which the kernel rewrites, the last one often among them
      static const int sizes[] = { 64, 100, 255, 256, 257, 511, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8191 };
      n = sizes[r.below( 15 )];
      step = static_cast< int >( n / r.range( 3, 12 ) );
      lo = r.chance( 600 ) ? ( n - 1 ) % step : static_cast< int >( r.below( step ) );
    }
    addArg( o, n > MAXN ? r.below( n > 2048 ? 3 : 4 ) : r.below( 4 ) ); addArg( o, n );
    addArg( o, lo ); addArg( o, step );
    addArg( o, r.chance( faulty < 3 ? 500 : 250 ) ); addArg( o, r.below( 64 ) ); addArg( o, r.below( 4 ) );
    return o;
  };
  for( int t = 0; t < hosts; ++t )
  {
    int k = static_cast< int >( r.range( 1, 4 ) );
    for( int j = 0; j < k; ++j )
    {
      int id = mk( 1, t ).id;
      if( faulty >= 3 && r.chance( 400 ) ) addFault( p.ops[id], F_API, r.range( 1, 5 ), r.chance( 100 ) ? 2 : r.below( 2 ) );
      if( faulty >= 8 && p.ops[id].kind != BIG && r.chance( 300 ) ) addFault( p.ops[id], F_THROW, r.range( 1, 1 + r.below( p.ops[id].a[1] + 1 ) ), r.below( exc::NTYPES ) );
      if( r.chance( 120 ) ) addFault( p.ops[id], F_STALL, r.below( 1000 ) );
      if( !DEV && r.chance( 200 ) ) { int n = mk( -1, t ).id; addFault( p.ops[id], F_INTERRUPT, r.below( 1000 ), n ); }
    }
  }
}

void wlSetup( Plan const & p )
{
  g_termMode = 1;
  g_device = -1;
  for( int i = 0; i < p.nops; ++i ) if( p.ops[i].kind == DEVICE ) g_device = p.ops[i].tid;
  for( int t = 0; t < MAXT; ++t ) { g_left[t] = hostOps( p, t ); g_dead[t] = false; }
#if defined( SHIVA_ENABLE_DEVICE )
  simdev::reset( g_device, hostOps( p, -1 ) );
#endif
  g_st = new State[MAXOPS]();
  for( int i = 0; i < p.nops; ++i )
  {
    Op const & o = p.ops[i];
    if( o.kind == DEVICE || o.kind == DEALLOC ) continue;
    State & s = g_st[o.id];
    s.n = static_cast< int >( o.a[1] ); s.lo = static_cast< int >( o.a[2] ); s.step = static_cast< int >( o.a[3] );
    size_t const room = o.kind == BIG ? 1 : static_cast< size_t >( s.n ) + 1;
    s.wrote = new bool[room](); s.init = new int64_t[room](); s.val = new int64_t[room]();
    if( o.kind == BIG ) { s.n = 0; s.host = arenaAlloc( 256, 64 ); continue; }
    byType( o, [&]( auto t ) { fill< decltype( t ) >( o ); } );
  }
}

void wlOp( Op const & o )
{
  static int live, errsSoFar;
  if( o.kind == DEVICE )
  {
#if defined( SHIVA_ENABLE_DEVICE )
    // kernels cannot reach the caller's arrays
    char * lo = nullptr, * hi = nullptr;
    for( int i = 0; i < plan().nops; ++i )
    {
      State & s = g_st[plan().ops[i].id];
      if( !s.host ) continue;
      char * h = static_cast< char * >( s.host );
      if( !lo || h < lo ) lo = h;
      if( !hi || h + 8 > hi ) hi = h + 8;
    }
    if( lo ) confine( lo, static_cast< size_t >( hi - lo ), nullptr, 0, false );
    simdev::deviceLoop();
    unconfine();
#endif
    return;
  }
  if( ++live == 2 ) probe( 5 );
  if( errsSoFar ) probe( 3 );
#if defined( SHIVA_ENABLE_DEVICE )
  confine( simdev::region(), simdev::regionSize(), nullptr, 0, false );      // nor can the host reach device memory
#endif
  if( o.kind == DEALLOC ) byType( o, [&]( auto t ) { deallocOp< decltype( t ) >( o ); } );
  else
  {
    if( !o.a[1] && o.kind == DATA ) probe( 4 );
    if( o.a[1] > 1000 && o.kind == DATA ) probe( 6 );
    bool out = false;
    try { if( o.kind == BIG ) launchBig( o ); else byType( o, [&]( auto t ) { launchOp< decltype( t ) >( o ); } ); }
    catch( ... )
    {
      leave();
      exc::Tag t{};
      int type = exc::classify( t );
      if( DEV || !g_st[o.id].faulted ) fail( "unexpected-exception", "an exception came out of a launch" );
      const FaultSpec * ft = faultOf( o, F_THROW );
      if( type != ft->p1 % exc::NTYPES || t.op != o.id || t.visit != ft->p0 || t.tag != 0.5 * o.id ) fail( "wrong-exception", "the exception that came out of a launch is not the one its kernel threw" );
      out = true;
    }
    State & s = g_st[o.id];
    int e = errors( o.id );
    bool failed = e || s.faulted;
    if( s.faulted ) probe( 2 );
    if( failed && !DEV )
    {
      if( !out ) fail( "exception-lost", "the kernel threw and the launch returned normally" );
    }
    else if( failed )
    {
      ++errsSoFar; probe( 0 );
      if( o.a[4] ) fail( "did-not-abort", "a launch that failed (%d failing calls%s) returned although asked to abort", e, s.faulted ? ", kernel fault" : "" );
      if( !reported( o.id ) ) fail( "failure-not-reported", "a launch that failed (%d failing calls%s) reported nothing", e, s.faulted ? ", kernel fault" : "" );
    }
    else
    {
      if( !s.runs ) fail( "kernel-did-not-run", "the wrapper returned and the kernel has not run" );
      if( !s.finished ) fail( "kernel-not-complete", "the wrapper returned before the kernel was complete" );
    }
    if( s.started && !s.finished ) fail( "kernel-not-complete", "the wrapper returned while the kernel was running" );
    settle( o.id );
    if( o.kind == DATA ) byType( o, [&]( auto t ) { checkData< decltype( t ) >( o, !failed ); } );
  }
  unconfine();
  checkReleased( o.id );
  --live;
  if( o.phase == 1 ) hostDone( o.tid, 1 );
}

void wlTerminated( Op const * o, int kind, int code )
{
  if( !o || o->kind > BIG ) fail( "unexpected-termination", "the process was terminated outside a launch" );
  bool failed = errors( o->id ) || g_st[o->id].faulted;
  if( failed && !DEV ) fail( "exception-lost", "a launch terminated the process when its kernel threw" );
  if( !failed ) fail( "terminated-without-failure", "a launch in which nothing failed terminated the process" );
  if( !o->a[4] ) fail( "terminated-unasked", "a failed launch terminated the process although not asked to abort" );
  if( kind == T_EXIT && code == 0 ) fail( "exit-reports-success", "a failed launch ended the process with a success status" );
  if( !reported( o->id ) ) fail( "failure-not-reported", "a launch that failed terminated the process and reported nothing" );
  probe( 1 );
  checkReleased( o->id );
  if( !g_dead[o->tid] ) { g_dead[o->tid] = true; hostDone( o->tid, g_left[o->tid] ); }
}

void wlFinish()
{
  Plan const & p = plan();
  for( int i = 0; i < p.nops; ++i ) if( p.ops[i].phase == 1 && p.ops[i].kind <= BIG && !g_st[p.ops[i].id].over && !g_dead[p.ops[i].tid] ) fail( "kernel-not-complete", "op %d did not finish", i );
}
} // namespace sim
