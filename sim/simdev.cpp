// Simulated accelerator: bookkeeping (compiled without instrumentation).
#include "sim.h"
#include "simdev.h"
#include <cstring>
#include <map>
#include <vector>
#include <deque>

namespace simdev
{
Dim3 g_threadIdx( 0, 0, 0 ), g_blockIdx( 0, 0, 0 ), g_blockDim, g_gridDim;

struct Block { size_t n; int op; bool live; };
struct Job { Cfg c; void ( *fn )( void * ); void * closure; int op; };
constexpr size_t REGION = 1 << 18;
static char * g_region;
static size_t g_used;
static std::map< uintptr_t, Block > * g_blocks;
static std::deque< Job > * g_queue;
static OpStat g_stat[sim::MAXOPS + 1];
static int g_last[sim::MAXT];          // last error of each host thread
static int g_context;                  // error every later call returns
static bool g_busy;
static int g_dev, g_hostOps;
static char K_WORK, K_IDLE;            // what threads wait for

// simulator state is changed outside the window, so that none of it is seen as the program's memory
struct Out { bool w; Out(): w( sim::inWindow() ) { sim::leave(); } ~Out() { if( w ) sim::enter(); } };

void reset( int deviceTid, int hostOps )
{
  g_dev = deviceTid; g_hostOps = hostOps;
  g_region = static_cast< char * >( sim::arenaAlloc( REGION, 64 ) );
  sim::watchTrap( g_region, REGION );
  g_used = 0;
  g_blocks = new std::map< uintptr_t, Block >;
  g_queue = new std::deque< Job >;
  std::memset( g_stat, 0, sizeof g_stat );
  std::memset( g_last, 0, sizeof g_last );
  g_context = 0; g_busy = false;
}
static int curOp() { sim::Op const * o = sim::currentOp(); return o ? o->id : sim::MAXOPS; }
OpStat & stat( int op ) { return g_stat[op < 0 ? sim::MAXOPS : op]; }
const void * region() { return g_region; }
size_t regionSize() { return REGION; }
static bool inRegion( const void * p ) { return static_cast< const char * >( p ) >= g_region && static_cast< const char * >( p ) < g_region + REGION; }
bool liveRange( const void * p, size_t n )
{
  auto it = g_blocks->upper_bound( reinterpret_cast< uintptr_t >( p ) );
  if( it == g_blocks->begin() ) return false;
  --it;
  return it->second.live && reinterpret_cast< uintptr_t >( p ) + n <= it->first + it->second.n;
}
int unreleased( int op ) { int k = 0; for( auto & b : *g_blocks ) if( b.second.live && b.second.op == op ) ++k; return k; }
void hostOpsDone( int n ) { Out o; g_hostOps -= n; if( g_hostOps <= 0 ) sim::notify( &K_WORK ); }

static int err( int e ) { if( e ) { g_stat[curOp()].errs++; if( sim::self() >= 0 ) g_last[sim::self()] = e; } return e; }

// a call that can fail: counts it and decides its fate (0: carry on)
static int fate( int & mode )
{
  mode = -1;
  if( g_context ) return err( g_context );
  sim::Op const * o = sim::currentOp();
  const sim::FaultSpec * f = o ? sim::faultOf( *o, sim::F_API ) : nullptr;
  int n = ++g_stat[curOp()].calls;
  if( f && f->p0 == n )
  {
    sim::faultFired( sim::F_API );
    mode = static_cast< int >( f->p1 );
    int e = mode == 2 ? E_ILLEGAL : E_UNKNOWN;
    if( mode == 2 )
    {
      while( g_busy && sim::self() != g_dev ) sim::waitFor( &K_IDLE );       // the device dies between two kernels
      if( g_context == 0 ) g_context = e;
    }
    return err( e );
  }
  return 0;
}
static void runOne();
static void waitIdle()
{
  if( sim::self() == g_dev ) return;
  if( g_dev < 0 )      // a minimised plan without the device thread
  {
    sim::unconfine();
    while( g_busy || !g_queue->empty() ) { if( g_busy ) sim::waitFor( &K_IDLE ); else runOne(); }
    sim::hbAcquire( &K_IDLE );
    sim::confine( g_region, REGION, nullptr, 0, false );
    return;
  }
  while( g_busy || !g_queue->empty() ) sim::waitFor( &K_IDLE );
  sim::hbAcquire( &K_IDLE );
}

int apiMalloc( void * * p, size_t n )
{
  sim::yieldPoint( "device" );
  Out o;
  int mode;
  if( int e = fate( mode ) ) { if( mode == 1 ) *p = nullptr; else if( mode == 2 ) *p = g_region + REGION - 8; return e == E_UNKNOWN ? E_NOMEM : e; }
  if( n == 0 ) { *p = nullptr; return 0; }
  size_t at = ( g_used + 32 + 63 ) & ~size_t( 63 );
  if( at + n + 128 > REGION ) return err( E_NOMEM );
  g_used = at + n;
  char * q = g_region + at;
  sim::unwatchTrap( q, n );
  uint64_t x = sim::plan().seed + at;      // fresh device memory holds garbage
  for( size_t i = 0; i < n; ++i ) { x = x * 6364136223846793005ull + 1442695040888963407ull; q[i] = static_cast< char >( x >> 56 ); }
  ( *g_blocks )[reinterpret_cast< uintptr_t >( q )] = Block{ n, curOp(), true };
  g_stat[curOp()].mallocs++;
  *p = q;
  return 0;
}
int apiFree( void * p )
{
  sim::yieldPoint( "device" );
  Out o;
  // (a release that reports an earlier fault of another launch is no failure of this one)
  if( p == nullptr ) return g_context;
  auto it = g_blocks->find( reinterpret_cast< uintptr_t >( p ) );
  if( it == g_blocks->end() ) sim::fail( "invalid-device-pointer", "release of a pointer that was never allocated on the device" );
  if( !it->second.live ) sim::fail( "double-release", "device memory is released twice" );
  if( !g_context ) waitIdle();              // releasing waits for the work that may use the memory
  it->second.live = false;
  sim::watchTrap( p, it->second.n );
  return g_context;
}
int apiCopy( void * d, const void * s, size_t n, int dir )
{
  sim::yieldPoint( "device" );
  int mode = -1, e;
  size_t take = n;
  {
    Out o;
    bool ds = inRegion( s ), dd = inRegion( d );
    e = g_context ? err( g_context ) : 0;
    if( !e && n )
    {
      waitIdle();
      if( g_context ) e = err( g_context );
    }
    if( !e )
    {
      bool wantS = dir == DEFAULT_DIR ? ds : ( dir == DEV2HOST || dir == DEV2DEV ), wantD = dir == DEFAULT_DIR ? dd : ( dir == HOST2DEV || dir == DEV2DEV );
      if( n && wantS && !liveRange( s, n ) ) sim::fail( "invalid-device-pointer", "copy of %zu bytes from memory that is not allocated on the device", n );
      if( n && wantD && !liveRange( d, n ) ) sim::fail( "invalid-device-pointer", "copy of %zu bytes to memory that is not allocated on the device", n );
      if( n && ( wantS != ds || wantD != dd ) ) { e = err( E_MEMCPY_DIR ); take = 0; }
      else if( ( e = fate( mode ) ) ) take = mode == 1 ? ( n / 2 ) / 24 * 24 : 0;       // whole elements of every size the workload uses
    }
    else take = 0;
  }
  if( take )
  {
    // host memory is accessed by the calling thread, device memory by the simulated copy engine
    if( !inRegion( s ) ) sim::touch( s, take, false );
    if( !inRegion( d ) ) sim::touch( d, take, true );
    Out o;
    std::memmove( d, s, take );
  }
  return e;
}
int apiSet( void * d, int v, size_t n )
{
  sim::yieldPoint( "device" );
  Out o;
  int mode;
  if( int e = fate( mode ) ) return e;
  waitIdle();
  if( n && !liveRange( d, n ) ) sim::fail( "invalid-device-pointer", "memset of %zu bytes that are not allocated on the device", n );
  if( n ) std::memset( d, v, n );
  return 0;
}
int apiSync()
{
  sim::yieldPoint( "device" );
  Out o;
  if( !g_context ) waitIdle();
  int mode;
  return fate( mode );
}
int apiLastError( bool clear )
{
  sim::yieldPoint( "device" );
  Out o;
  if( g_context ) return err( g_context );
  int e = g_last[sim::self()];
  if( clear ) g_last[sim::self()] = 0;
  return e;
}
const char * apiErrorString( int e )
{
  switch( e )
  {
    case E_OK: return "no error";
    case E_INVALID_VALUE: return "invalid argument";
    case E_NOMEM: return "out of memory";
    case E_INVALID_CONFIG: return "invalid configuration argument";
    case E_LAUNCH: return "unspecified launch failure";
    case E_ILLEGAL: return "an illegal memory access was encountered";
    default: return "unknown error";
  }
}
bool apiLaunchOk( Cfg const & c )
{
  sim::yieldPoint( "device" );
  Out o;
  int mode;
  if( fate( mode ) ) return false;
  size_t g = size_t( c.g.x ) * c.g.y * c.g.z, b = size_t( c.b.x ) * c.b.y * c.b.z;
  if( !g || !b || b > 1024 ) { err( E_INVALID_CONFIG ); return false; }
  return true;
}
void apiEnqueue( Cfg const & c, void ( *fn )( void * ), void * closure )
{
  {
    Out o;
    g_stat[curOp()].launches++;
    g_queue->push_back( Job{ c, fn, closure, curOp() } );
    sim::hbRelease( &K_WORK );
    sim::notify( &K_WORK );
  }
  sim::yieldPoint( "device" );
}
static void runOne()
{
  Job j = g_queue->front();
  g_busy = true;
  g_queue->pop_front();
  sim::hbAcquire( &K_WORK );
  if( !g_context )
  {
    g_gridDim = j.c.g; g_blockDim = j.c.b;
    try
    {
      for( unsigned b = 0; b < j.c.g.x * j.c.g.y * j.c.g.z; ++b ) for( unsigned t = 0; t < j.c.b.x * j.c.b.y * j.c.b.z; ++t )
      {
        g_blockIdx = Dim3( b, 0, 0 ); g_threadIdx = Dim3( t, 0, 0 );
        sim::Window w;
        j.fn( j.closure );
      }
    }
    catch( DeviceFault const & f )
    {
      sim::leave();
      g_stat[j.op].faulted = true;
      g_context = f.code;          // a fault in a kernel makes every later call fail
    }
    sim::leave();
  }
  g_busy = false;
  sim::hbRelease( &K_IDLE );
  sim::notify( &K_IDLE );
}
void deviceLoop()
{
  for( ;; )
  {
    Out o;
    if( !g_queue->empty() ) { runOne(); continue; }
    if( g_hostOps <= 0 ) return;
    sim::waitFor( &K_WORK );
  }
}
}
