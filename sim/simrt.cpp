// Deterministic simulator runtime. NOT instrumented. Provides:
//  * the __tsan_* entry points the compiler emits (memory accesses, atomics, function entry) as scheduling points
//  * a one-runnable-at-a-time scheduler over real pthreads (so thread_local means what it should)
//  * simulated mutexes, rwlocks, condition variables, once/guard objects, time, stdio, heap, abort/exit/signals
//  * a byte-granular happens-before race detector
//  * fork-per-run explore / replay drivers
#include "sim.h"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{

// ---------------------------------------------------------------------------------------------------------------
// memory layout
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t DATA_SZ = 48u << 20;              // objects + heap
static const size_t STACK_SZ = 1u << 20;
static const uintptr_t STACKS = ARENA + DATA_SZ;
static const uintptr_t SHADOW = 0x110000000000ull;    // one byte per DATA byte: 1 trap, 2 input (no writes)
static const uintptr_t RTAB = 0x120000000000ull;

enum { SH_TRAP = 1, SH_INPUT = 2 };

struct RCell
{
  uintptr_t addr;
  uint32_t wclk;
  uint8_t wtid1;         // tid+1, 0 none
  uint8_t watomic;
  uint8_t ratomic;       // bitmask of tids whose last read was atomic
  uint8_t pad;
  uint32_t r[MAXT + 1];
};
static const size_t RCELLS = 1u << 17;

static unsigned char * shadow( uintptr_t a ) { return reinterpret_cast< unsigned char * >( SHADOW + ( a - ARENA ) ); }
static bool inData( uintptr_t a ) { return a >= ARENA && a < ARENA + DATA_SZ; }

extern "C" char __executable_start, _end;
static bool inExe( uintptr_t a ) { return a >= reinterpret_cast< uintptr_t >( &__executable_start ) && a < reinterpret_cast< uintptr_t >( &_end ); }

// ---------------------------------------------------------------------------------------------------------------
// shared record between the worker and its child
struct Record
{
  volatile int done;             // 0 running, 1 ok, 2 violation
  char cls[64];
  char msg[1500];
  int opId;
  uint64_t steps, points, nswitch, npre, hash, ihash, simTime, races, accPoints;
  uint64_t seen[F_KIND_COUNT], fired[F_KIND_COUNT], probes[32];
  uint64_t nops, terms;
  int nrec;
  Switch rec[8192];
  uint64_t outBytes;
  Plan plan;
};
static Record * R = nullptr;

// ---------------------------------------------------------------------------------------------------------------
struct VC { uint32_t c[MAXT + 1]; };
static void vjoin( VC & a, VC const & b ) { for( int i = 0; i <= MAXT; ++i ) if( b.c[i] > a.c[i] ) a.c[i] = b.c[i]; }

enum State { S_NONE, S_RUN, S_BLOCK, S_BARRIER, S_DONE };

struct Thr
{
  int id;
  pthread_t pt;
  std::atomic< int > go;
  State st;
  const void * waitOn;
  int waitMode;
  uint64_t wakeAt;                // simulated time; ~0 none
  bool timedOut;
  uint64_t local, acc;            // points; points with a non-stack address
  VC vc;
  uintptr_t lo, hi;
  bool win;
  int rt;                         // inside the runtime
  int held;                       // locks held
  int depth;                      // nesting of ops
  Op const * op;
  uint64_t opStart;
  uint64_t intrAt; int intrOp;    // interrupt fault
  uint64_t stallAt;
  bool stalled;
  int64_t allocN, allocFail, allocAll;
  int64_t ioN; const FaultSpec * io;
  uint64_t spin;
  int prio;
  uintptr_t cobj, cobjEnd, cel, celEnd; bool cwrite; uint64_t chits;
};

static Thr g_thr[MAXT + 1];       // index 0..n-1 workers
static int g_n = 0;
static thread_local Thr * self_ = nullptr;
static Plan const * g_plan = nullptr;
int g_termMode = 0;
bool g_abortSignalReturns = false;
int g_trapAccess = 0;
static Rng * g_srng = nullptr;
static uint64_t g_steps = 0, g_time = 0;
static uint64_t g_cap = 6000000;
static uint64_t g_hash = 0x1234, g_ihash = 0x77;
static int g_phase = 0;
static bool g_inChild = false;
static int64_t g_countdown = 0;
static std::map< std::pair< int, uint64_t >, int > * g_explicit = nullptr;
static std::vector< uint64_t > * g_pctAt = nullptr;
static size_t g_pctI = 0;
static uintptr_t g_bump = ARENA + 4096;
static int g_opsDone = 0;

struct RtGuard { Thr * t; RtGuard( Thr * x ): t( x ) { if( t ) ++t->rt; } ~RtGuard() { if( t ) --t->rt; } };

int self() { return self_ ? self_->id : -1; }
bool inWindow() { return self_ && self_->win; }
Plan const & plan() { return *g_plan; }
void mixHash( uint64_t v ) { g_hash = mix( g_hash, v ); }
void faultFired( int k ) { R->fired[k]++; }
void faultSeen( int k ) { R->seen[k]++; }
void probe( int i ) { if( i >= 0 && i < 32 ) R->probes[i]++; }

const FaultSpec * faultOf( Op const & op, int kind )
{
  for( int i = 0; i < op.nf; ++i ) if( op.f[i].kind == kind ) return &op.f[i];
  return nullptr;
}

static void flushRecord()
{
  R->steps = g_steps; R->simTime = g_time; R->hash = g_hash; R->ihash = g_ihash; R->nops = g_opsDone;
}

[[noreturn]] static void rawExit( int c ) { for( ;; ) syscall( SYS_exit_group, c ); }
[[noreturn]] static void finishChild( int code )
{
  flushRecord();
  R->done = code;
  rawExit( code == 1 ? 0 : 7 );
}

[[noreturn]] void fail( const char * cls, const char * fmt, ... )
{
  if( self_ ) ++self_->rt;
  if( !R->done && !R->cls[0] )
  {
    std::snprintf( R->cls, sizeof( R->cls ), "%s", cls );
    va_list ap; va_start( ap, fmt );
    int k = 0;
    if( self_ && self_->op ) k = std::snprintf( R->msg, sizeof( R->msg ), "[thread %d op %d %s phase %d] ", self_->id, self_->op->id, wlKindName( self_->op->kind ), self_->op->phase );
    std::vsnprintf( R->msg + k, sizeof( R->msg ) - k, fmt, ap );
    va_end( ap );
    R->opId = self_ && self_->op ? self_->op->id : -1;
    g_hash = mix( g_hash, 0xFA11 );
  }
  R->plan = *g_plan;
  finishChild( 2 );
}

// ---------------------------------------------------------------------------------------------------------------
// baton
static void fwait( std::atomic< int > & w )
{
  while( w.load( std::memory_order_acquire ) == 0 )
    syscall( SYS_futex, reinterpret_cast< int * >( &w ), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0 );
  w.store( 0, std::memory_order_relaxed );
}
static void fwake( std::atomic< int > & w )
{
  w.store( 1, std::memory_order_release );
  syscall( SYS_futex, reinterpret_cast< int * >( &w ), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0 );
}

static void startPhase();
static bool phaseDone();

static int runnable( int * out, bool allowStalled )
{
  int n = 0;
  for( int i = 0; i < g_n; ++i )
    if( g_thr[i].st == S_RUN && ( allowStalled || !g_thr[i].stalled ) ) out[n++] = i;
  return n;
}

// called when the current thread cannot continue; returns the next thread id
static int pickForced()
{
  int c[MAXT];
  int n = runnable( c, false );
  if( n == 0 ) n = runnable( c, true );
  if( n == 0 )
  {
    // advance simulated time to the earliest timed waiter
    uint64_t best = ~0ull; int bi = -1;
    for( int i = 0; i < g_n; ++i )
      if( g_thr[i].st == S_BLOCK && g_thr[i].wakeAt < best ) { best = g_thr[i].wakeAt; bi = i; }
    if( bi >= 0 )
    {
      if( best > g_time ) g_time = best;
      g_thr[bi].st = S_RUN; g_thr[bi].timedOut = true; g_thr[bi].wakeAt = ~0ull;
      return bi;
    }
    return -1;
  }
  if( n == 1 ) return c[0];
  if( g_plan->policy == P_PCT )
  {
    int b = c[0];
    for( int i = 1; i < n; ++i ) if( g_thr[c[i]].prio > g_thr[b].prio ) b = c[i];
    return b;
  }
  if( g_plan->policy == P_SERIAL || g_plan->policy == P_EXPLICIT ) return c[0];
  return c[g_srng->below( n )];
}

static void recordSwitch( int tid, uint64_t local, int to )
{
  if( R->nrec < static_cast< int >( sizeof( R->rec ) / sizeof( R->rec[0] ) ) ) R->rec[R->nrec++] = Switch{ tid, local, to };
  R->nswitch++;
}

// hand the baton to `to`; the calling thread waits until it gets it back
static void handTo( int to, bool wait )
{
  Thr * me = self_;
  Thr & t = g_thr[to];
  if( &t == me ) return;
  g_ihash = mix( g_ihash, ( static_cast< uint64_t >( to ) << 32 ) ^ ( me ? me->local * 8 + me->id : 0 ) );
  fwake( t.go );
  if( wait && me ) fwait( me->go );
}

static void reschedule()       // current thread is blocked/done
{
  Thr * me = self_;
  int to;
  if( g_plan->policy == P_EXPLICIT && me )
  {
    auto it = g_explicit->find( { me->id, me->local | ( 1ull << 62 ) } );
    if( it != g_explicit->end() && g_thr[it->second].st == S_RUN ) to = it->second;
    else to = pickForced();
  }
  else to = pickForced();
  if( to < 0 && R->terms )
  {
    wlFinish();
    finishChild( 1 );
  }
  if( to < 0 )
  {
    std::string s;
    for( int i = 0; i < g_n; ++i )
    {
      char b[96];
      std::snprintf( b, sizeof b, " t%d:%s(op %d)", i, g_thr[i].st == S_BLOCK ? "blocked" : g_thr[i].st == S_DONE ? "done" : g_thr[i].st == S_BARRIER ? "finished" : "?", g_thr[i].op ? g_thr[i].op->id : -1 );
      s += b;
    }
    fail( "deadlock", "no thread can run:%s", s.c_str() );
  }
  if( me ) recordSwitch( me->id, me->local | ( 1ull << 62 ), to );
  handTo( to, me && me->st != S_DONE );
}

static void switchAway( Thr * me, int to )
{
  if( to == me->id || g_thr[to].st != S_RUN ) return;
  recordSwitch( me->id, me->local, to );
  R->npre++;
  handTo( to, true );
}

enum PKind { K_READ = 1, K_WRITE = 2, K_ATOMIC = 3, K_FUNC = 4, K_SYNC = 5, K_IO = 6, K_USER = 7 };

static std::unordered_map< uintptr_t, uint8_t > * g_hot;   // addresses outside stacks -> bitmask of tids, bit7 written

static void decide( Thr * t, int kind, uintptr_t addr )
{
  int c[MAXT];
  switch( g_plan->policy )
  {
    case P_SERIAL: return;
    case P_EXPLICIT:
    {
      auto it = g_explicit->find( { t->id, t->local } );
      if( it != g_explicit->end() ) switchAway( t, it->second );
      return;
    }
    case P_RANDOM:
    {
      if( kind == K_FUNC ) { if( g_plan->pol[1] == 0 ) return; }
      if( --g_countdown > 0 ) return;
      int64_t m = g_plan->pol[0];
      g_countdown = 1 + g_srng->below( 2 * m );
      int n = runnable( c, false );
      int k = 0;
      for( int i = 0; i < n; ++i ) if( c[i] != t->id ) c[k++] = c[i];
      if( k ) switchAway( t, c[g_srng->below( k )] );
      return;
    }
    case P_PCT:
    {
      bool change = false;
      while( g_pctI < g_pctAt->size() && g_steps >= ( *g_pctAt )[g_pctI] ) { ++g_pctI; change = true; }
      if( !change ) return;
      t->prio = -static_cast< int >( g_pctI );
      int n = runnable( c, false );
      int b = t->id;
      for( int i = 0; i < n; ++i ) if( g_thr[c[i]].prio > g_thr[b].prio ) b = c[i];
      if( b != t->id ) switchAway( t, b );
      return;
    }
    case P_TARGET:
    {
      if( kind == K_FUNC ) return;
      int permille = 2;
      if( kind == K_SYNC || kind == K_IO || kind == K_ATOMIC || kind == K_USER ) permille = static_cast< int >( g_plan->pol[0] );
      else if( addr )
      {
        uint8_t & h = ( *g_hot )[addr & ~7ull];
        uint8_t before = h;
        h |= static_cast< uint8_t >( 1u << t->id );
        if( kind == K_WRITE ) h |= 0x80;
        bool many = ( before & 0x7f & ~( 1u << t->id ) ) != 0;
        bool written = ( h & 0x80 ) != 0;
        if( written && ( many || inExe( addr ) ) ) permille = static_cast< int >( g_plan->pol[0] );
        else if( written ) permille = static_cast< int >( g_plan->pol[1] );
      }
      if( !g_srng->chance( permille ) ) return;
      int n = runnable( c, false );
      int k = 0;
      for( int i = 0; i < n; ++i ) if( c[i] != t->id ) c[k++] = c[i];
      if( k ) switchAway( t, c[g_srng->below( k )] );
      return;
    }
  }
}

static void execOp( Op const & op );

static uintptr_t normAddr( uintptr_t a )
{
  if( ( a >= ARENA && a < STACKS + ( MAXT + 1 ) * STACK_SZ ) || inExe( a ) ) return a;
  return 1;
}

// a scheduling point; true if it was taken inside a window
static bool point( int kind, uintptr_t addr )
{
  Thr * t = self_;
  if( !t || !t->win || t->rt ) return false;
  ++t->rt;
  t->local++;
  g_steps++;
  if( kind != K_FUNC ) { t->acc++; g_hash = mix( g_hash, ( static_cast< uint64_t >( t->id ) << 56 ) ^ ( static_cast< uint64_t >( kind ) << 50 ) ^ normAddr( addr ) ); R->accPoints++; }
  R->points++;
  if( g_steps > g_cap ) { --t->rt; fail( "livelock", "run exceeded %llu scheduling points", static_cast< unsigned long long >( g_cap ) ); }
  if( ( g_steps & 1023 ) == 0 ) g_time++;
  if( kind == K_ATOMIC || kind == K_SYNC ) t->spin++;
  if( t->spin > 4000 )
  {
    t->spin = 0;
    int c[MAXT]; int n = runnable( c, true ); int k = 0;
    for( int i = 0; i < n; ++i ) if( c[i] != t->id ) c[k++] = c[i];
    g_time += 10;
    if( k ) switchAway( t, c[( g_steps / 4000 ) % static_cast< uint64_t >( k )] );
  }
  if( t->stallAt && t->acc - t->opStart >= t->stallAt && !t->stalled )
  {
    t->stallAt = 0;
    int c[MAXT]; int n = runnable( c, false );
    if( n > 1 )
    {
      t->stalled = true;
      R->fired[F_STALL]++;
      int k = 0;
      for( int i = 0; i < n; ++i ) if( c[i] != t->id ) c[k++] = c[i];
      int to = c[0];
      if( g_plan->policy == P_EXPLICIT )
      {
        auto it = g_explicit->find( { t->id, t->local } );
        if( it != g_explicit->end() ) to = it->second;
      }
      else to = c[g_srng->below( k )];
      switchAway( t, to );
    }
  }
  else decide( t, kind, addr );
  if( t->intrAt && t->acc - t->opStart >= t->intrAt && t->held == 0 && kind != K_FUNC )
  {
    int nested = t->intrOp;
    t->intrAt = 0;
    R->fired[F_INTERRUPT]++;
    --t->rt;
    runNested( nested );
    ++t->rt;
  }
  --t->rt;
  return true;
}

void yieldPoint( const char * ) { point( K_USER, 0 ); }

void runNested( int opId )
{
  Thr * t = self_;
  Op const * o = nullptr;
  for( int i = 0; i < g_plan->nops; ++i ) if( g_plan->ops[i].id == opId ) o = &g_plan->ops[i];
  if( !o || t->depth > 2 ) return;
  Thr save;
  save.win = t->win; save.rt = t->rt; save.op = t->op; save.opStart = t->opStart; save.intrAt = t->intrAt; save.intrOp = t->intrOp;
  save.stallAt = t->stallAt; save.allocN = t->allocN; save.allocFail = t->allocFail; save.allocAll = t->allocAll; save.ioN = t->ioN; save.io = t->io;
  save.cobj = t->cobj; save.cobjEnd = t->cobjEnd; save.cel = t->cel; save.celEnd = t->celEnd; save.cwrite = t->cwrite; save.chits = t->chits; t->cobj = t->cobjEnd = 0;
  t->win = false; t->rt = 0; t->intrAt = 0; t->stallAt = 0; t->allocFail = 0; t->io = nullptr;
  execOp( *o );
  uint64_t used = t->acc;
  t->win = save.win; t->rt = save.rt; t->op = save.op; t->intrAt = save.intrAt; t->intrOp = save.intrOp;
  t->stallAt = save.stallAt; t->allocN = save.allocN; t->allocFail = save.allocFail; t->allocAll = save.allocAll; t->ioN = save.ioN; t->io = save.io;
  t->cobj = save.cobj; t->cobjEnd = save.cobjEnd; t->cel = save.cel; t->celEnd = save.celEnd; t->cwrite = save.cwrite; t->chits = save.chits;
  (void)used;
  t->opStart = save.opStart;
}

// ---------------------------------------------------------------------------------------------------------------
// races
static RCell * rcell( uintptr_t a )
{
  RCell * tab = reinterpret_cast< RCell * >( RTAB );
  size_t h = ( a * 0x9E3779B97F4A7C15ull ) >> ( 64 - 17 );
  for( size_t k = 0; k < 64; ++k )
  {
    RCell * c = &tab[( h + k ) & ( RCELLS - 1 )];
    if( c->addr == a ) return c;
    if( c->addr == 0 ) { c->addr = a; return c; }
  }
  return nullptr;
}

static void forget( uintptr_t a, size_t n )
{
  for( size_t i = 0; i < n; ++i )
  {
    RCell * c = rcell( a + i );
    if( c ) { uintptr_t k = c->addr; std::memset( c, 0, sizeof( *c ) ); c->addr = k; }
  }
}

static void raceCheck( Thr * t, uintptr_t a, size_t n, bool write, bool atomic )
{
  int me = t->id;
  for( size_t i = 0; i < n; ++i )
  {
    RCell * c = rcell( a + i );
    if( !c ) return;
    bool bad = false; int other = -1; bool otherWrite = false;
    if( c->wtid1 && c->wtid1 - 1 != me && c->wclk > t->vc.c[c->wtid1 - 1] && !( atomic && c->watomic ) ) { bad = true; other = c->wtid1 - 1; otherWrite = true; }
    if( write && !bad )
      for( int k = 0; k < g_n; ++k )
        if( k != me && c->r[k] > t->vc.c[k] && !( atomic && ( c->ratomic >> k & 1 ) ) ) { bad = true; other = k; }
    if( bad )
    {
      R->races++;
      char where[64];
      if( inExe( a ) ) std::snprintf( where, sizeof where, "static storage %#lx", static_cast< unsigned long >( a + i ) );
      else std::snprintf( where, sizeof where, "%s %#lx", inData( a ) ? "shared object" : "memory", static_cast< unsigned long >( normAddr( a ) + i ) );
      fail( "data-race", "%s of %zu bytes at %s is unordered with an earlier %s by thread %d", write ? "write" : "read", n, where, otherWrite ? "write" : "read", other );
    }
    if( write )
    {
      c->wtid1 = static_cast< uint8_t >( me + 1 ); c->wclk = t->vc.c[me]; c->watomic = atomic;
    }
    else
    {
      c->r[me] = t->vc.c[me];
      if( atomic ) c->ratomic |= static_cast< uint8_t >( 1u << me ); else c->ratomic &= static_cast< uint8_t >( ~( 1u << me ) );
    }
  }
}

static void confineCheck( Thr * t, uintptr_t a, size_t n, bool write )
{
  if( t->cobjEnd == t->cobj || a >= t->cobjEnd || a + n <= t->cobj ) return;
  if( a < t->cel || a + n > t->celEnd )
    fail( "foreign-element-touched", "%s of %zu bytes at offset %ld of the array, outside the addressed element", write ? "write" : "read", n, static_cast< long >( a - t->cobj ) );
  if( write && !t->cwrite ) fail( "read-access-writes", "write of %zu bytes to the array by a read access", n );
  t->chits++;
}

static void access( uintptr_t a, size_t n, bool write )
{
  Thr * t = self_;
  if( !t || !t->win || t->rt ) return;
  if( a >= t->lo && a < t->hi ) return;
  if( !point( write ? K_WRITE : K_READ, a ) ) return;
  t->spin = 0;
  ++t->rt;
  if( inData( a ) )
  {
    for( size_t i = 0; i < n; ++i )
    {
      unsigned char s = *shadow( a + i );
      if( s & SH_TRAP )
      {
        g_trapAccess++;
        fail( "stray-access", "%s of %zu bytes at offset %+ld outside every live object", write ? "write" : "read", n, static_cast< long >( i ) );
      }
      if( write && ( s & SH_INPUT ) ) fail( "input-modified", "write of %zu bytes into an input of the operation", n );
    }
  }
  confineCheck( t, a, n, write );
  raceCheck( t, a, n, write, false );
  --t->rt;
}

void confine( const void * obj, size_t n, const void * el, size_t en, bool allowWrite )
{
  Thr * t = self_;
  t->cobj = reinterpret_cast< uintptr_t >( obj ); t->cobjEnd = t->cobj + n;
  t->cel = reinterpret_cast< uintptr_t >( el ); t->celEnd = t->cel + en;
  t->cwrite = allowWrite; t->chits = 0;
}
void unconfine() { Thr * t = self_; if( t ) t->cobj = t->cobjEnd = 0; }
uint64_t confinedHits() { return self_ ? self_->chits : 0; }

bool wouldTrap( const void * p ) { uintptr_t a = reinterpret_cast< uintptr_t >( p ); return inData( a ) && ( *shadow( a ) & SH_TRAP ); }

static void setShadow( const void * p, size_t n, unsigned char bit, bool on )
{
  uintptr_t a = reinterpret_cast< uintptr_t >( p );
  if( !inData( a ) ) return;
  for( size_t i = 0; i < n; ++i ) if( on ) *shadow( a + i ) |= bit; else *shadow( a + i ) &= static_cast< unsigned char >( ~bit );
}
void watchInput( const void * p, size_t n ) { setShadow( p, n, SH_INPUT, true ); }
void unwatchInput( const void * p, size_t n ) { setShadow( p, n, SH_INPUT, false ); }
void watchTrap( const void * p, size_t n ) { setShadow( p, n, SH_TRAP, true ); }
void unwatchTrap( const void * p, size_t n ) { setShadow( p, n, SH_TRAP, false ); }
void touch( const void * p, size_t n, bool write ) { if( n ) access( reinterpret_cast< uintptr_t >( p ), n, write ); }
Op const * currentOp() { return self_ ? self_->op : nullptr; }
void addRedzoned( void *, size_t ) {}

// ---------------------------------------------------------------------------------------------------------------
// arena: redzoned blocks, never reused
void * arenaAlloc( size_t bytes, size_t align )
{
  if( align < 16 ) align = 16;
  uintptr_t p = ( g_bump + 64 + align - 1 ) & ~( align - 1 );
  uintptr_t end = p + bytes;
  uintptr_t nb = ( end + 15 ) & ~15ull;
  if( nb + 4096 > ARENA + DATA_SZ ) { static const char m[] = "sim: arena exhausted\n"; (void)!::write( 2, m, sizeof m - 1 ); rawExit( 9 ); }
  setShadow( reinterpret_cast< void * >( g_bump ), p - g_bump, SH_TRAP, true );
  setShadow( reinterpret_cast< void * >( end ), nb + 64 - end, SH_TRAP, true );
  g_bump = nb + 64 - 16;
  return reinterpret_cast< void * >( p );
}

static bool isArena( const void * p ) { return inData( reinterpret_cast< uintptr_t >( p ) ); }

static std::unordered_map< uintptr_t, size_t > * g_blocks;

static void * heapAlloc( size_t n, size_t align, bool & failed )
{
  Thr * t = self_;
  failed = false;
  ++t->rt;
  if( t->win && t->allocFail )
  {
    // one failing allocation, or no memory from here on
    if( ++t->allocN >= t->allocFail ) { failed = true; if( !t->allocAll ) t->allocFail = 0; R->fired[F_ALLOC]++; --t->rt; return nullptr; }
  }
  void * p = arenaAlloc( n ? n : 1, align );
  ( *g_blocks )[reinterpret_cast< uintptr_t >( p )] = n;
  g_hash = mix( g_hash, 0xA110C ^ n );
  // fresh heap memory holds garbage
  uint64_t x = g_plan->seed * 0x9E37 + reinterpret_cast< uintptr_t >( p );
  unsigned char * q = static_cast< unsigned char * >( p );
  for( size_t i = 0; i < n; ++i ) { x = x * 6364136223846793005ull + 1442695040888963407ull; q[i] = static_cast< unsigned char >( x >> 56 ); }
  --t->rt;
  return p;
}

static void heapFree( void * p )
{
  Thr * t = self_;
  if( t ) ++t->rt;
  auto it = g_blocks->find( reinterpret_cast< uintptr_t >( p ) );
  if( it == g_blocks->end() ) fail( "bad-free", "free of a pointer that is not a live allocation" );
  setShadow( p, it->second, SH_TRAP, true );
  g_blocks->erase( it );
  if( t ) --t->rt;
}

// ---------------------------------------------------------------------------------------------------------------
// synchronisation objects
struct SyncObj { int owner = -1; int depth = 0; int readers = 0; VC vc{}; int once = 0; };
static std::unordered_map< uintptr_t, SyncObj > * g_sync;

static SyncObj & syncOf( const void * p ) { return ( *g_sync )[reinterpret_cast< uintptr_t >( p )]; }

static void blockOn( const void * p, uint64_t wakeAt = ~0ull )
{
  Thr * t = self_;
  t->local++;
  t->st = S_BLOCK; t->waitOn = p; t->wakeAt = wakeAt; t->timedOut = false;
  reschedule();
}
static void wakeAll( const void * p )
{
  for( int i = 0; i < g_n; ++i ) if( g_thr[i].st == S_BLOCK && g_thr[i].waitOn == p ) { g_thr[i].st = S_RUN; g_thr[i].wakeAt = ~0ull; }
}
static void wakeOne( const void * p )
{
  int c[MAXT]; int n = 0;
  for( int i = 0; i < g_n; ++i ) if( g_thr[i].st == S_BLOCK && g_thr[i].waitOn == p ) c[n++] = i;
  if( !n ) return;
  int k = g_plan->policy == P_EXPLICIT || g_plan->policy == P_SERIAL ? c[0] : c[g_srng->below( n )];
  g_thr[k].st = S_RUN; g_thr[k].wakeAt = ~0ull;
}
static void acquire( const void * p ) { vjoin( self_->vc, syncOf( p ).vc ); }
static void release( const void * p ) { Thr * t = self_; vjoin( syncOf( p ).vc, t->vc ); t->vc.c[t->id]++; }

static int mtxLock( const void * m, bool recursive, bool tryOnly )
{
  Thr * t = self_;
  point( K_SYNC, reinterpret_cast< uintptr_t >( m ) );
  RtGuard g( t );
  for( ;; )
  {
    SyncObj & s = syncOf( m );
    if( s.owner == -1 && s.readers == 0 ) { s.owner = t->id; s.depth = 1; t->held++; acquire( m ); return 0; }
    if( s.owner == t->id )
    {
      if( recursive ) { s.depth++; t->held++; return 0; }
      if( tryOnly ) return EBUSY;
      fail( "deadlock", "thread locks a non-recursive mutex it already holds" );
    }
    if( tryOnly ) return EBUSY;
    blockOn( m );
  }
}
static int mtxUnlock( const void * m )
{
  Thr * t = self_;
  RtGuard g( t );
  SyncObj & s = syncOf( m );
  if( s.owner == t->id )
  {
    t->held--;
    if( --s.depth == 0 ) { s.owner = -1; release( m ); wakeAll( m ); }
  }
  else if( s.readers > 0 ) { t->held--; s.readers--; release( m ); if( s.readers == 0 ) wakeAll( m ); }
  else fail( "sync-misuse", "unlock of a mutex the thread does not hold" );
  --t->rt; point( K_SYNC, reinterpret_cast< uintptr_t >( m ) ); ++t->rt;
  return 0;
}
static int rdLock( const void * m, bool tryOnly )
{
  Thr * t = self_;
  point( K_SYNC, reinterpret_cast< uintptr_t >( m ) );
  RtGuard g( t );
  for( ;; )
  {
    SyncObj & s = syncOf( m );
    if( s.owner == -1 ) { s.readers++; t->held++; acquire( m ); return 0; }
    if( tryOnly ) return EBUSY;
    blockOn( m );
  }
}

void sleepPoint( int64_t ticks )
{
  Thr * t = self_;
  if( !t ) return;
  RtGuard g( t );
  t->local++; g_steps++;
  g_hash = mix( g_hash, 0x51EE + t->id );
  static int dummy[MAXT + 1];
  blockOn( &dummy[t->id], g_time + static_cast< uint64_t >( ticks < 1 ? 1 : ticks ) );
}

void waitFor( const void * key ) { RtGuard g( self_ ); blockOn( key ); }
void notify( const void * key ) { wakeAll( key ); }
void hbRelease( const void * key ) { if( self_ ) { RtGuard g( self_ ); release( key ); } }
void hbAcquire( const void * key ) { if( self_ ) { RtGuard g( self_ ); acquire( key ); } }

// ---------------------------------------------------------------------------------------------------------------
// output
static std::vector< OutByte > * g_out;
static uint32_t g_outCall = 0;
size_t outSize() { return g_out->size(); }
OutByte const & outAt( size_t i ) { return ( *g_out )[i]; }

static char g_ioMutex;       // stdio lock (flockfile)
static bool g_streamError[3];

// returns bytes accepted, or -1 with errno
static long emit( int fd, const char * p, size_t n, bool stdioLayer )
{
  Thr * t = self_;
  long accept = static_cast< long >( n );
  if( t->win && t->io )
  {
    ++t->ioN;
    // a persistent failure keeps failing; a transient one fails once
    bool hit = t->io->p1 >= 10 ? t->ioN >= t->io->p0 : t->ioN == t->io->p0;
    // signals do not interrupt a write for ever
    if( t->io->p1 == 10 && t->ioN >= t->io->p0 + 40 ) hit = false;
    if( hit )
    {
      R->fired[F_IO]++;
      switch( t->io->p1 % 10 )
      {
        case 0: errno = EINTR; accept = -1; break;
        case 1: accept = static_cast< long >( n > 1 ? n / 2 : n ); errno = EINTR; break;
        case 2: errno = ENOSPC; accept = -1; break;
        case 3: errno = EIO; accept = -1; break;
        case 4: errno = EBADF; accept = -1; break;
        case 5: errno = EAGAIN; accept = -1; break;
        default: if( stdioLayer ) accept = 0; else { errno = EPIPE; accept = -1; } break;
      }
    }
  }
  ++g_outCall;
  for( long i = 0; i < accept; ++i )
  {
    if( g_out->size() > 400000 ) fail( "livelock", "unbounded output" );
    g_out->push_back( OutByte{ p[i], static_cast< uint8_t >( fd ), static_cast< uint8_t >( t->id ), static_cast< int16_t >( t->op ? t->op->id : -1 ), g_outCall } );
    g_hash = mix( g_hash, static_cast< uint64_t >( static_cast< unsigned char >( p[i] ) ) );
  }
  R->outBytes += accept > 0 ? static_cast< uint64_t >( accept ) : 0;
  if( stdioLayer && accept < static_cast< long >( n ) ) { if( fd >= 0 && fd < 3 ) g_streamError[fd] = true; return -1; }
  return accept;
}

static bool simIO() { return self_ && self_->win && !self_->rt; }

static int outf( int fd, const char * fmt, va_list ap )
{
  char stackbuf[2048];
  va_list ap2; va_copy( ap2, ap );
  int need = std::vsnprintf( stackbuf, sizeof stackbuf, fmt, ap );
  long r;
  if( need < 0 ) { va_end( ap2 ); return -1; }
  if( static_cast< size_t >( need ) < sizeof stackbuf ) r = emit( fd, stackbuf, static_cast< size_t >( need ), true );
  else
  {
    std::vector< char > b( static_cast< size_t >( need ) + 1 );
    std::vsnprintf( b.data(), b.size(), fmt, ap2 );
    r = emit( fd, b.data(), static_cast< size_t >( need ), true );
  }
  va_end( ap2 );
  return r < 0 ? -1 : need;
}

static void waitStdio()    // stdio calls take the stream lock
{
  for( ;; )
  {
    SyncObj & s = syncOf( &g_ioMutex );
    if( s.owner == -1 || s.owner == self_->id ) return;
    blockOn( &g_ioMutex );
  }
}

// ---------------------------------------------------------------------------------------------------------------
// termination of the simulated process by code under test
[[noreturn]] static void terminated( int kind, int code )
{
  Thr * t = self_;
  t->rt = 0;
  bool win = t->win;
  t->win = false;
  R->terms++;
  g_hash = mix( g_hash, 0xAB0 + kind * 16 + code );
  const char * nm = kind == T_ABORT ? "abort" : kind == T_EXIT ? "exit" : "trap";
  if( !g_termMode || !win ) fail( "unexpected-termination", "the process was terminated by %s(%d)", nm, code );
  wlTerminated( t->op, kind, code );
  ++t->rt;
  // the process is dying: the calling thread never runs again, others may still run for a while
  t->st = S_DONE;
  // locks it holds stay held (as they would)
  if( phaseDone() ) startPhase();
  reschedule();
  for( ;; ) pause();
}

// ---------------------------------------------------------------------------------------------------------------
void enter() { Thr * t = self_; t->win = true; }
void leave() { Thr * t = self_; if( t ) t->win = false; }

uint64_t opSig( Op const & op )
{
  uint64_t h = 0x5151 + static_cast< uint64_t >( op.kind );
  for( int i = 0; i < op.nargs; ++i ) h = mix( h, static_cast< uint64_t >( op.a[i] ) );
  return h;
}

static std::unordered_map< uint64_t, uint64_t > * g_len;
uint64_t opLength( uint64_t sig ) { auto it = g_len->find( sig ); return it == g_len->end() ? 0 : it->second; }

static std::unordered_map< uint64_t, std::vector< unsigned char > > * g_bits;
void sameBits( uint64_t sig, const void * p, size_t n, const char * what )
{
  Thr * t = self_;
  RtGuard g( t );
  auto & v = ( *g_bits )[sig];
  const unsigned char * b = static_cast< const unsigned char * >( p );
  for( size_t i = 0; i < n; ++i ) g_hash = mix( g_hash, b[i] );
  if( v.empty() ) v.assign( b, b + n );
  else if( v.size() != n || std::memcmp( v.data(), b, n ) ) fail( "not-repeatable", "%s: the same call with the same arguments returned different bits", what );
}

Rng & opRng( Op const & op )
{
  static thread_local Rng r( 0 );
  r = Rng( mix( g_plan->seed, static_cast< uint64_t >( op.id ) * 7919 + 13 ) );
  return r;
}

static void execOp( Op const & op )
{
  Thr * t = self_;
  t->op = &op;
  t->cobj = t->cobjEnd = 0;
  t->depth++;
  t->opStart = t->acc;
  t->intrAt = 0; t->stallAt = 0; t->allocFail = 0; t->allocN = 0; t->io = nullptr; t->ioN = 0;
  uint64_t sig = opSig( op );
  uint64_t len = opLength( sig );
  for( int i = 0; i < op.nf; ++i )
  {
    FaultSpec const & f = op.f[i];
    faultSeen( f.kind );
    if( f.kind == F_INTERRUPT ) { t->intrAt = 1 + ( len ? static_cast< uint64_t >( f.p0 ) * len / 1000 : static_cast< uint64_t >( f.p0 % 7 ) ); t->intrOp = static_cast< int >( f.p1 ); }
    if( f.kind == F_STALL ) t->stallAt = 1 + ( len ? static_cast< uint64_t >( f.p0 ) * len / 1000 : static_cast< uint64_t >( f.p0 % 7 ) );
    if( f.kind == F_ALLOC ) { t->allocFail = f.p0; t->allocAll = f.p1; }
    if( f.kind == F_IO ) t->io = &f;
  }
  uint64_t a0 = t->acc;
  g_hash = mix( g_hash, 0x09 + static_cast< uint64_t >( op.id ) * 31 + t->id );
  wlOp( op );
  t->win = false;
  if( op.nf == 0 ) ( *g_len )[sig] = t->acc - a0;
  t->depth--;
  t->op = nullptr;
  g_opsDone++;
  t->stalled = false;
}

// ---------------------------------------------------------------------------------------------------------------
// phases
static int g_maxPhase = 0;
static bool phaseDone()
{
  for( int i = 0; i < g_n; ++i ) if( g_thr[i].st != S_BARRIER && g_thr[i].st != S_DONE ) return false;
  return true;
}
static void startPhase()
{
  // everything before the barrier happens before everything after it
  VC all{};
  for( int i = 0; i < g_n; ++i ) vjoin( all, g_thr[i].vc );
  if( ++g_phase > g_maxPhase )
  {
    wlFinish();
    finishChild( 1 );
  }
  for( int i = 0; i < g_n; ++i )
  {
    g_thr[i].vc = all; g_thr[i].vc.c[i]++;
    if( g_thr[i].st == S_BARRIER ) { g_thr[i].st = S_RUN; g_thr[i].stalled = false; }
  }
  bool any = false;
  for( int i = 0; i < g_n; ++i ) if( g_thr[i].st == S_RUN ) any = true;
  if( !any )      // every thread terminated
  {
    wlFinish();
    R->plan.seed = g_plan->seed;
    finishChild( 1 );
  }
}

static void junkStack( Thr * t )
{
  uintptr_t sp = reinterpret_cast< uintptr_t >( __builtin_frame_address( 0 ) ) - 2048;
  uint64_t x = g_plan->seed * 77 + static_cast< uint64_t >( t->id );
  for( uintptr_t p = sp - 49152; p < sp; p += 8 ) { x = x * 6364136223846793005ull + 1442695040888963407ull; *reinterpret_cast< volatile uint64_t * >( p ) = x; }
}

static void * threadMain( void * arg )
{
  Thr * t = static_cast< Thr * >( arg );
  self_ = t;
  t->rt = 0;
  t->hi = reinterpret_cast< uintptr_t >( __builtin_frame_address( 0 ) ) + 64;
  t->lo = STACKS + static_cast< uintptr_t >( t->id ) * STACK_SZ;
  fwait( t->go );
  junkStack( t );
  for( int ph = 0; ph <= g_maxPhase; ++ph )
  {
    for( int i = 0; i < g_plan->nops; ++i )
    {
      Op const & o = g_plan->ops[i];
      if( o.phase == ph && o.tid == t->id ) execOp( o );
    }
    ++t->rt;
    t->local++;
    t->st = S_BARRIER;
    if( phaseDone() )
    {
      startPhase();
      int to = pickForced();
      if( to != t->id ) { recordSwitch( t->id, t->local | ( 1ull << 62 ), to ); handTo( to, true ); }
    }
    else reschedule();
    --t->rt;
  }
  return nullptr;
}

static void onSignal( int sig, siginfo_t * si, void * )
{
  Thr * t = self_;
  if( sig == SIGVTALRM || sig == SIGALRM )
  {
    if( !R->cls[0] ) { std::snprintf( R->cls, sizeof R->cls, sig == SIGVTALRM ? "hang" : "internal-timeout" ); std::snprintf( R->msg, sizeof R->msg, "no progress within the CPU limit of one run" ); R->plan = *g_plan; }
    R->done = 2;
    rawExit( 7 );
  }
  if( t && t->win && sig == SIGABRT && g_abortSignalReturns ) return;
  if( t && t->win && g_termMode && ( sig == SIGILL || sig == SIGTRAP || sig == SIGABRT ) ) terminated( sig == SIGABRT ? T_ABORT : T_TRAP, sig );
  if( !R->cls[0] )
  {
    std::snprintf( R->cls, sizeof R->cls, "crash" );
    std::snprintf( R->msg, sizeof R->msg, "signal %d (%s) address %s thread %d op %d %s", sig, strsignal( sig ), si->si_addr == nullptr ? "null" : "non-null",
                   t ? t->id : -1, t && t->op ? t->op->id : -1, t && t->op ? wlKindName( t->op->kind ) : "" );
    R->opId = t && t->op ? t->op->id : -1;
    R->plan = *g_plan;
  }
  R->done = 2;
  rawExit( 7 );
}

[[noreturn]] static void childRun( Plan const & p, std::vector< Switch > const * sched )
{
  g_inChild = true;
  g_plan = &p;
  static char altstk[65536];
  stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk;
  sigaltstack( &ss, nullptr );
  struct sigaction sa{};
  sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  for( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGVTALRM, SIGALRM } ) sigaction( s, &sa, nullptr );
  struct itimerval it{}; it.it_value.tv_sec = 10; setitimer( ITIMER_VIRTUAL, &it, nullptr );
  it.it_value.tv_sec = 200; setitimer( ITIMER_REAL, &it, nullptr );

  static Rng srng( 0 ); srng = Rng( p.polseed ); g_srng = &srng;
  g_explicit = new std::map< std::pair< int, uint64_t >, int >;
  g_pctAt = new std::vector< uint64_t >;
  g_hot = new std::unordered_map< uintptr_t, uint8_t >;
  g_sync = new std::unordered_map< uintptr_t, SyncObj >;
  g_blocks = new std::unordered_map< uintptr_t, size_t >;
  g_out = new std::vector< OutByte >;
  g_len = new std::unordered_map< uint64_t, uint64_t >;
  g_bits = new std::unordered_map< uint64_t, std::vector< unsigned char > >;
  if( sched ) for( auto const & s : *sched ) ( *g_explicit )[{ s.tid, s.local }] = s.to;
  if( p.policy == P_RANDOM ) g_countdown = 1 + srng.below( 2 * p.pol[0] );
  if( p.policy == P_PCT )
  {
    for( int i = 0; i < p.pol[0]; ++i ) g_pctAt->push_back( 1 + static_cast< uint64_t >( srng.below( p.pol[1] ) ) );
    for( size_t i = 0; i < g_pctAt->size(); ++i )
      for( size_t j = i + 1; j < g_pctAt->size(); ++j ) if( ( *g_pctAt )[j] < ( *g_pctAt )[i] ) std::swap( ( *g_pctAt )[i], ( *g_pctAt )[j] );
  }
  g_n = p.nthreads;
  g_maxPhase = 0;
  for( int i = 0; i < p.nops; ++i ) if( p.ops[i].phase > g_maxPhase ) g_maxPhase = p.ops[i].phase;
  int perm[MAXT];
  for( int i = 0; i < g_n; ++i ) perm[i] = i + 1;
  for( int i = g_n - 1; i > 0; --i ) std::swap( perm[i], perm[srng.below( i + 1 )] );

  wlSetup( p );

  for( int i = 0; i < g_n; ++i )
  {
    Thr & t = g_thr[i];
    t.id = i; t.st = S_RUN; t.wakeAt = ~0ull; t.prio = perm[i];
    t.vc.c[i] = 1;
    pthread_attr_t at; pthread_attr_init( &at );
    pthread_attr_setstack( &at, reinterpret_cast< void * >( STACKS + static_cast< uintptr_t >( i ) * STACK_SZ ), STACK_SZ );
    if( pthread_create( &t.pt, &at, threadMain, &t ) ) { std::snprintf( R->cls, 64, "internal" ); rawExit( 9 ); }
  }
  fwake( g_thr[pickForced()].go );
  for( ;; ) pause();
}

// ---------------------------------------------------------------------------------------------------------------
Op & addOp( Plan & p, int phase, int tid, int kind )
{
  if( p.nops >= MAXOPS ) { static Op dump; dump = Op{}; return dump; }
  Op & o = p.ops[p.nops];
  std::memset( &o, 0, sizeof o );
  o.id = p.nops++; o.phase = phase; o.tid = tid; o.kind = kind;
  return o;
}

void genPolicy( Rng & r, Plan & p )
{
  p.polseed = r.next();
  switch( r.below( 8 ) )
  {
    case 0: p.policy = P_SERIAL; break;
    case 1: case 2:
    {
      static const int64_t m[] = { 2, 4, 8, 20, 60, 200, 800 };
      p.policy = P_RANDOM; p.pol[0] = m[r.below( 7 )]; p.pol[1] = r.below( 2 );
      break;
    }
    case 3: case 4:
      p.policy = P_PCT; p.pol[0] = r.range( 1, 6 );
      { static const int64_t l[] = { 60, 300, 1500, 6000, 25000 }; p.pol[1] = l[r.below( 5 )]; }
      break;
    default:
    {
      static const int64_t a[] = { 900, 600, 350, 150 };
      p.policy = P_TARGET; p.pol[0] = a[r.below( 4 )]; p.pol[1] = a[r.below( 4 )] / 3;
    }
  }
}

static const char * faultName( int k )
{
  static const char * n[] = { "none", "interrupt", "callback-throw", "callback-block", "callback-reenter", "alloc-fail", "output-error", "index-bitflip", "thread-stall", "device-api-error", "dirty-memory" };
  return n[k];
}

static void writePlan( FILE * f, Plan const & p, const Switch * sw, int nsw )
{
  std::fprintf( f, "workload %s\nseed %llu\nthreads %d\npolicy %d %lld %lld %lld %lld %llu\n", wlName(), static_cast< unsigned long long >( p.seed ), p.nthreads, p.policy,
                static_cast< long long >( p.pol[0] ), static_cast< long long >( p.pol[1] ), static_cast< long long >( p.pol[2] ), static_cast< long long >( p.pol[3] ), static_cast< unsigned long long >( p.polseed ) );
  std::fprintf( f, "params %d", p.nparam );
  for( int i = 0; i < p.nparam; ++i ) std::fprintf( f, " %lld", static_cast< long long >( p.param[i] ) );
  std::fprintf( f, "\n" );
  for( int i = 0; i < p.nops; ++i )
  {
    Op const & o = p.ops[i];
    std::fprintf( f, "op %d %d %d %d %d", o.id, o.phase, o.tid, o.kind, o.nargs );
    for( int k = 0; k < o.nargs; ++k ) std::fprintf( f, " %lld", static_cast< long long >( o.a[k] ) );
    std::fprintf( f, " faults %d", o.nf );
    for( int k = 0; k < o.nf; ++k ) std::fprintf( f, " %d %lld %lld", o.f[k].kind, static_cast< long long >( o.f[k].p0 ), static_cast< long long >( o.f[k].p1 ) );
    std::fprintf( f, " # %s", wlKindName( o.kind ) );
    for( int k = 0; k < o.nf; ++k ) std::fprintf( f, " %s", faultName( o.f[k].kind ) );
    std::fprintf( f, "\n" );
  }
  for( int i = 0; i < nsw; ++i ) std::fprintf( f, "switch %d %llu %d\n", sw[i].tid, static_cast< unsigned long long >( sw[i].local ), sw[i].to );
  std::fprintf( f, "end\n" );
}

static bool readPlan( FILE * f, Plan & p, std::vector< Switch > & sw )
{
  std::memset( static_cast< void * >( &p ), 0, sizeof p );
  char line[4096];
  bool ended = false;
  while( std::fgets( line, sizeof line, f ) )
  {
    unsigned long long a, b; long long l[4];
    if( std::sscanf( line, "seed %llu", &a ) == 1 ) p.seed = a;
    else if( std::sscanf( line, "threads %d", &p.nthreads ) == 1 ) {}
    else if( std::sscanf( line, "policy %d %lld %lld %lld %lld %llu", &p.policy, &l[0], &l[1], &l[2], &l[3], &b ) == 6 ) { for( int i = 0; i < 4; ++i ) p.pol[i] = l[i]; p.polseed = b; }
    else if( !std::strncmp( line, "params ", 7 ) )
    {
      char * q = line + 7; p.nparam = static_cast< int >( std::strtol( q, &q, 10 ) );
      for( int i = 0; i < p.nparam && i < 16; ++i ) p.param[i] = std::strtoll( q, &q, 10 );
    }
    else if( !std::strncmp( line, "op ", 3 ) && p.nops < MAXOPS )
    {
      char * q = line + 3;
      Op & o = p.ops[p.nops++];
      o.id = static_cast< int >( std::strtol( q, &q, 10 ) ); o.phase = static_cast< int >( std::strtol( q, &q, 10 ) ); o.tid = static_cast< int >( std::strtol( q, &q, 10 ) ); o.kind = static_cast< int >( std::strtol( q, &q, 10 ) );
      o.nargs = static_cast< int >( std::strtol( q, &q, 10 ) );
      for( int i = 0; i < o.nargs && i < MAXARGS; ++i ) o.a[i] = std::strtoll( q, &q, 10 );
      q = std::strstr( q, "faults " ); if( !q ) return false; q += 7;
      o.nf = static_cast< int >( std::strtol( q, &q, 10 ) );
      for( int i = 0; i < o.nf && i < MAXFAULTS; ++i ) { o.f[i].kind = static_cast< int >( std::strtol( q, &q, 10 ) ); o.f[i].p0 = std::strtoll( q, &q, 10 ); o.f[i].p1 = std::strtoll( q, &q, 10 ); }
    }
    else if( std::sscanf( line, "switch %lld %llu %lld", &l[0], &a, &l[1] ) == 3 ) sw.push_back( Switch{ static_cast< int >( l[0] ), a, static_cast< int >( l[1] ) } );
    else if( !std::strncmp( line, "end", 3 ) ) ended = true;
  }
  return ended;
}

static void resetRecord()
{
  size_t keep = offsetof( Record, rec );
  std::memset( static_cast< void * >( R ), 0, keep );
  R->outBytes = 0;
}

static void runOne( Plan & p, std::vector< Switch > const * sched )
{
  resetRecord();
  pid_t c = fork();
  if( c == 0 ) childRun( p, sched );
  int st = 0;
  while( waitpid( c, &st, 0 ) < 0 && errno == EINTR ) {}
  if( R->done == 0 )
  {
    if( WIFEXITED( st ) && WEXITSTATUS( st ) == 9 ) { std::snprintf( R->cls, sizeof R->cls, "internal" ); std::snprintf( R->msg, sizeof R->msg, "simulator resource exhausted" ); }
    else { std::snprintf( R->cls, sizeof R->cls, "died" ); std::snprintf( R->msg, sizeof R->msg, "process died with wait status %#x", static_cast< unsigned >( st ) ); }
    R->done = 2;
    R->plan = p;
  }
}

static void jsonStr( FILE * f, const char * s )
{
  std::fputc( '"', f );
  for( ; *s; ++s )
  {
    unsigned char ch = static_cast< unsigned char >( *s );
    if( ch == '"' || ch == '\\' ) std::fprintf( f, "\\%c", ch );
    else if( ch < 32 || ch > 126 ) std::fprintf( f, "\\u%04x", ch );
    else std::fputc( ch, f );
  }
  std::fputc( '"', f );
}

static double now() { struct timespec ts; syscall( SYS_clock_gettime, CLOCK_MONOTONIC, &ts ); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// explore <seed> <start> <stride> <count> <seconds> <outfile> <hashfile> <maxviol> <tier> <dumpdir>
static int explore( int argc, char ** argv )
{
  if( argc < 11 ) return 2;
  uint64_t seed = std::strtoull( argv[2], nullptr, 10 ), start = std::strtoull( argv[3], nullptr, 10 ), stride = std::strtoull( argv[4], nullptr, 10 ), count = std::strtoull( argv[5], nullptr, 10 );
  double secs = std::atof( argv[6] );
  FILE * out = std::fopen( argv[7], "w" ), * hf = std::fopen( argv[8], "w" );
  int maxviol = std::atoi( argv[9] ), tier = std::atoi( argv[10] );
  const char * dump = argc > 11 ? argv[11] : ".";
  if( !out || !hf ) return 2;
  double t0 = now();
  uint64_t seen[F_KIND_COUNT]{}, fired[F_KIND_COUNT]{}, probes[32]{}, steps = 0, sw = 0, ops = 0, acc = 0, terms = 0, bytes = 0, simT = 0, pol[8]{}, faultRuns = 0;
  std::vector< uint64_t > kinds( static_cast< size_t >( wlKinds() ), 0 );
  uint64_t runs = 0; int viol = 0;
  static Plan p;
  for( uint64_t i = start; i < count; i += stride )
  {
    if( secs > 0 && now() - t0 > secs ) break;
    std::memset( static_cast< void * >( &p ), 0, sizeof p );
    uint64_t s = mix( seed * 1000003, i );
    Rng r( s );
    p.seed = s;
    wlGen( r, p, tier );
    runOne( p, nullptr );
    ++runs;
    bool anyf = false;
    for( int k = 0; k < F_KIND_COUNT; ++k ) if( R->fired[k] ) anyf = true;
    std::fprintf( hf, "%llu %016llx %016llx %llu %llu %d\n", static_cast< unsigned long long >( i ), static_cast< unsigned long long >( R->hash ), static_cast< unsigned long long >( R->ihash ), static_cast< unsigned long long >( R->accPoints ), static_cast< unsigned long long >( R->npre ), anyf ? 1 : 0 );
    bool any = false;
    for( int k = 0; k < F_KIND_COUNT; ++k ) { seen[k] += R->seen[k]; fired[k] += R->fired[k]; if( R->fired[k] ) any = true; }
    faultRuns += any;
    for( int k = 0; k < 32; ++k ) probes[k] += R->probes[k];
    for( int k = 0; k < p.nops; ++k ) if( p.ops[k].kind >= 0 && p.ops[k].kind < wlKinds() ) kinds[static_cast< size_t >( p.ops[k].kind )]++;
    steps += R->steps; sw += R->nswitch; ops += R->nops; acc += R->accPoints; terms += R->terms; bytes += R->outBytes; simT += R->simTime; pol[p.policy & 7]++;
    if( R->done != 1 )
    {
      ++viol;
      char fn[512];
      std::snprintf( fn, sizeof fn, "%s/viol-%llu.plan", dump, static_cast< unsigned long long >( i ) );
      FILE * vf = std::fopen( fn, "w" );
      if( vf ) { writePlan( vf, p, R->rec, 0 ); std::fclose( vf ); }
      std::fprintf( out, "{\"t\":\"viol\",\"i\":%llu,\"cls\":", static_cast< unsigned long long >( i ) ); jsonStr( out, R->cls );
      std::fprintf( out, ",\"msg\":" ); jsonStr( out, R->msg );
      std::fprintf( out, ",\"plan\":" ); jsonStr( out, fn ); std::fprintf( out, "}\n" );
      std::fflush( out );
      if( viol >= maxviol ) break;
    }
    else if( runs <= 2 )
    {
      char fn[512];
      std::snprintf( fn, sizeof fn, "%s/sample-%llu.plan", dump, static_cast< unsigned long long >( i ) );
      FILE * vf = std::fopen( fn, "w" );
      if( vf ) { writePlan( vf, p, R->rec, R->nrec < 40 ? R->nrec : 40 ); std::fclose( vf ); }
    }
  }
  std::fprintf( out, "{\"t\":\"sum\",\"runs\":%llu,\"secs\":%.3f,\"steps\":%llu,\"accesses\":%llu,\"switches\":%llu,\"ops\":%llu,\"terms\":%llu,\"outbytes\":%llu,\"simtime\":%llu,\"faultruns\":%llu,\"policies\":[",
                static_cast< unsigned long long >( runs ), now() - t0, static_cast< unsigned long long >( steps ), static_cast< unsigned long long >( acc ), static_cast< unsigned long long >( sw ), static_cast< unsigned long long >( ops ),
                static_cast< unsigned long long >( terms ), static_cast< unsigned long long >( bytes ), static_cast< unsigned long long >( simT ), static_cast< unsigned long long >( faultRuns ) );
  for( int k = 0; k < 5; ++k ) std::fprintf( out, "%s%llu", k ? "," : "", static_cast< unsigned long long >( pol[k] ) );
  std::fprintf( out, "],\"seen\":{" );
  bool first = true;
  for( int k = 1; k < F_KIND_COUNT; ++k ) if( seen[k] ) { std::fprintf( out, "%s\"%s\":%llu", first ? "" : ",", faultName( k ), static_cast< unsigned long long >( seen[k] ) ); first = false; }
  std::fprintf( out, "},\"fired\":{" ); first = true;
  for( int k = 1; k < F_KIND_COUNT; ++k ) if( fired[k] ) { std::fprintf( out, "%s\"%s\":%llu", first ? "" : ",", faultName( k ), static_cast< unsigned long long >( fired[k] ) ); first = false; }
  std::fprintf( out, "},\"probes\":{" ); first = true;
  for( int k = 0; k < 32; ++k ) { const char * n = wlProbeName( k ); if( n ) { std::fprintf( out, "%s", first ? "" : "," ); jsonStr( out, n ); std::fprintf( out, ":%llu", static_cast< unsigned long long >( probes[k] ) ); first = false; } }
  std::fprintf( out, "},\"kinds\":{" ); first = true;
  for( int k = 0; k < wlKinds(); ++k ) { std::fprintf( out, "%s", first ? "" : "," ); jsonStr( out, wlKindName( k ) ); std::fprintf( out, ":%llu", static_cast< unsigned long long >( kinds[static_cast< size_t >( k )] ) ); first = false; }
  std::fprintf( out, "}}\n" );
  std::fclose( out ); std::fclose( hf );
  return 0;
}

// replay <planfile> [recfile]: prints one JSON line; recfile gets the plan with the schedule made explicit
static int replay( int argc, char ** argv )
{
  if( argc < 3 ) return 2;
  static Plan p;
  std::vector< Switch > sw;
  FILE * f = std::fopen( argv[2], "r" );
  if( !f || !readPlan( f, p, sw ) ) { std::fprintf( stderr, "cannot read %s\n", argv[2] ); return 2; }
  std::fclose( f );
  runOne( p, &sw );
  std::printf( "{\"ok\":%s,\"cls\":", R->done == 1 ? "true" : "false" ); jsonStr( stdout, R->cls );
  std::printf( ",\"msg\":" ); jsonStr( stdout, R->msg );
  std::printf( ",\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"nrec\":%d}\n", static_cast< unsigned long long >( R->hash ), static_cast< unsigned long long >( R->steps ), static_cast< unsigned long long >( R->nswitch ), R->nrec );
  if( argc > 3 )
  {
    FILE * o = std::fopen( argv[3], "w" );
    if( o )
    {
      Plan q = p; q.policy = P_EXPLICIT;
      writePlan( o, q, R->rec, R->nrec );
      std::fclose( o );
    }
  }
  return 0;
}

static int simMain( int argc, char ** argv )
{
  if( argc < 2 ) { std::fprintf( stderr, "usage: explore|replay|gen\n" ); return 2; }
  void * a = mmap( reinterpret_cast< void * >( ARENA ), DATA_SZ + ( MAXT + 1 ) * STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
  void * b = mmap( reinterpret_cast< void * >( SHADOW ), DATA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
  void * c = mmap( reinterpret_cast< void * >( RTAB ), RCELLS * sizeof( RCell ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
  if( a == MAP_FAILED || b == MAP_FAILED || c == MAP_FAILED ) { std::perror( "mmap" ); return 2; }
  R = static_cast< Record * >( mmap( nullptr, sizeof( Record ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  if( !std::strcmp( argv[1], "explore" ) ) return explore( argc, argv );
  if( !std::strcmp( argv[1], "replay" ) ) return replay( argc, argv );
  return 2;
}

// ---------------------------------------------------------------------------------------------------------------
template< typename T >
struct At
{
  static bool pre( const volatile void * p )
  {
    Thr * t = self_;
    if( !t || !t->win || t->rt ) return false;
    uintptr_t a = reinterpret_cast< uintptr_t >( p );
    if( a >= t->lo && a < t->hi ) return false;
    return point( K_ATOMIC, a );
  }
  static void post( const volatile void * p, bool wr, bool rd, int mo )
  {
    Thr * t = self_;
    ++t->rt;
    uintptr_t a = reinterpret_cast< uintptr_t >( p );
    const void * q = reinterpret_cast< const void * >( a );
    confineCheck( t, a, sizeof( T ), wr );
    if( wr && inData( a ) && ( *shadow( a ) & SH_INPUT ) ) fail( "input-modified", "atomic write into an input of the operation" );
    raceCheck( t, a, sizeof( T ), wr, true );
    if( rd && ( mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST ) ) acquire( q );
    if( wr && ( mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST ) ) release( q );
    --t->rt;
  }
};

} // namespace sim

using namespace sim;

// weak real main so workloads need none
int main( int argc, char ** argv ) { return sim::simMain( argc, argv ); }

extern "C"
{

void __tsan_init() {}
void __tsan_func_entry( void * ) { if( self_ && self_->win && !self_->rt ) point( K_FUNC, 0 ); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ACC( N ) \
  void __tsan_read ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, false ); } \
  void __tsan_write ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, true ); } \
  void __tsan_read ## N ## _pc( void * a, void * ) { access( reinterpret_cast< uintptr_t >( a ), N, false ); } \
  void __tsan_write ## N ## _pc( void * a, void * ) { access( reinterpret_cast< uintptr_t >( a ), N, true ); } \
  void __tsan_unaligned_read ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, false ); } \
  void __tsan_unaligned_write ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, true ); } \
  void __tsan_volatile_read ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, false ); } \
  void __tsan_volatile_write ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, true ); } \
  void __tsan_unaligned_volatile_read ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, false ); } \
  void __tsan_unaligned_volatile_write ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, true ); } \
  void __tsan_read_write ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, false ); access( reinterpret_cast< uintptr_t >( a ), N, true ); } \
  void __tsan_unaligned_read_write ## N( void * a ) { access( reinterpret_cast< uintptr_t >( a ), N, false ); access( reinterpret_cast< uintptr_t >( a ), N, true ); }
ACC( 1 ) ACC( 2 ) ACC( 4 ) ACC( 8 ) ACC( 16 )

void __tsan_read_range( void * a, size_t n ) { access( reinterpret_cast< uintptr_t >( a ), n, false ); }
void __tsan_write_range( void * a, size_t n ) { access( reinterpret_cast< uintptr_t >( a ), n, true ); }
void __tsan_vptr_update( void ** p, void * v ) { if( *p != v ) access( reinterpret_cast< uintptr_t >( p ), 8, true ); }
void __tsan_vptr_read( void ** p ) { access( reinterpret_cast< uintptr_t >( p ), 8, false ); }

void * __real_memcpy( void *, const void *, size_t );
void * __real_memmove( void *, const void *, size_t );
void * __real_memset( void *, int, size_t );

void * __tsan_memcpy( void * d, const void * s, size_t n ) { access( reinterpret_cast< uintptr_t >( s ), n, false ); access( reinterpret_cast< uintptr_t >( d ), n, true ); return __real_memcpy( d, s, n ); }
void * __tsan_memmove( void * d, const void * s, size_t n ) { access( reinterpret_cast< uintptr_t >( s ), n, false ); access( reinterpret_cast< uintptr_t >( d ), n, true ); return __real_memmove( d, s, n ); }
void * __tsan_memset( void * d, int c, size_t n ) { access( reinterpret_cast< uintptr_t >( d ), n, true ); return __real_memset( d, c, n ); }
void * __wrap_memcpy( void * d, const void * s, size_t n ) { if( self_ && self_->win && !self_->rt && n ) return __tsan_memcpy( d, s, n ); return __real_memcpy( d, s, n ); }
void * __wrap_memmove( void * d, const void * s, size_t n ) { if( self_ && self_->win && !self_->rt && n ) return __tsan_memmove( d, s, n ); return __real_memmove( d, s, n ); }
void * __wrap_memset( void * d, int c, size_t n ) { if( self_ && self_->win && !self_->rt && n ) return __tsan_memset( d, c, n ); return __real_memset( d, c, n ); }

size_t __real_strlen( const char * );
char * __real_strdup( const char * );
char * __real_strndup( const char *, size_t );
size_t __wrap_strlen( const char * s ) { size_t n = __real_strlen( s ); if( self_ && self_->win && !self_->rt ) access( reinterpret_cast< uintptr_t >( s ), n + 1, false ); return n; }
#define STRW( name, args, call, dst, dn ) char * __real_ ## name args; char * __wrap_ ## name args { char * r = __real_ ## name call; if( self_ && self_->win && !self_->rt ) access( reinterpret_cast< uintptr_t >( dst ), dn, true ); return r; }
STRW( strcpy, ( char * d, const char * s ), ( d, s ), d, __real_strlen( d ) + 1 )
STRW( strcat, ( char * d, const char * s ), ( d, s ), d, __real_strlen( d ) + 1 )
STRW( strncpy, ( char * d, const char * s, size_t n ), ( d, s, n ), d, n )
STRW( strncat, ( char * d, const char * s, size_t n ), ( d, s, n ), d, __real_strlen( d ) + 1 )

#define ATOMICS( N, T ) \
  T __tsan_atomic ## N ## _load( const volatile T * p, int mo ) { bool s = At< T >::pre( p ); T v = __atomic_load_n( p, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, false, true, mo ); return v; } \
  void __tsan_atomic ## N ## _store( volatile T * p, T v, int mo ) { bool s = At< T >::pre( p ); if( s ) At< T >::post( p, true, false, mo ); __atomic_store_n( p, v, __ATOMIC_SEQ_CST ); } \
  T __tsan_atomic ## N ## _exchange( volatile T * p, T v, int mo ) { bool s = At< T >::pre( p ); T r = __atomic_exchange_n( p, v, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, true, true, mo ); return r; } \
  T __tsan_atomic ## N ## _fetch_add( volatile T * p, T v, int mo ) { bool s = At< T >::pre( p ); T r = __atomic_fetch_add( p, v, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, true, true, mo ); return r; } \
  T __tsan_atomic ## N ## _fetch_sub( volatile T * p, T v, int mo ) { bool s = At< T >::pre( p ); T r = __atomic_fetch_sub( p, v, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, true, true, mo ); return r; } \
  T __tsan_atomic ## N ## _fetch_and( volatile T * p, T v, int mo ) { bool s = At< T >::pre( p ); T r = __atomic_fetch_and( p, v, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, true, true, mo ); return r; } \
  T __tsan_atomic ## N ## _fetch_or( volatile T * p, T v, int mo ) { bool s = At< T >::pre( p ); T r = __atomic_fetch_or( p, v, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, true, true, mo ); return r; } \
  T __tsan_atomic ## N ## _fetch_xor( volatile T * p, T v, int mo ) { bool s = At< T >::pre( p ); T r = __atomic_fetch_xor( p, v, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, true, true, mo ); return r; } \
  T __tsan_atomic ## N ## _fetch_nand( volatile T * p, T v, int mo ) { bool s = At< T >::pre( p ); T r = __atomic_fetch_nand( p, v, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, true, true, mo ); return r; } \
  int __tsan_atomic ## N ## _compare_exchange_strong( volatile T * p, T * e, T v, int mo, int fmo ) \
  { bool s = At< T >::pre( p ); bool ok = __atomic_compare_exchange_n( p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); if( s ) At< T >::post( p, ok, true, ok ? mo : fmo ); return ok; } \
  int __tsan_atomic ## N ## _compare_exchange_weak( volatile T * p, T * e, T v, int mo, int fmo ) { return __tsan_atomic ## N ## _compare_exchange_strong( p, e, v, mo, fmo ); } \
  T __tsan_atomic ## N ## _compare_exchange_val( volatile T * p, T e, T v, int mo, int fmo ) { __tsan_atomic ## N ## _compare_exchange_strong( p, &e, v, mo, fmo ); return e; }
ATOMICS( 8, unsigned char )
ATOMICS( 16, unsigned short )
ATOMICS( 32, unsigned int )
ATOMICS( 64, unsigned long )

static char g_fence;
void __tsan_atomic_thread_fence( int mo )
{
  if( !self_ || !self_->win || self_->rt ) return;
  point( K_SYNC, 0 );
  ++self_->rt;
  if( mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST ) acquire( &g_fence );
  if( mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST ) release( &g_fence );
  --self_->rt;
}
void __tsan_atomic_signal_fence( int ) {}

// ---- heap -------------------------------------------------------------------------------------------------------
void * __real_malloc( size_t );
void __real_free( void * );
void * __real_calloc( size_t, size_t );
void * __real_realloc( void *, size_t );
static bool simHeap() { return self_ && self_->win && !self_->rt; }
void * __wrap_malloc( size_t n ) { if( !simHeap() ) return __real_malloc( n ); bool f; void * p = heapAlloc( n, 16, f ); if( f ) errno = ENOMEM; return p; }
void * __wrap_calloc( size_t a, size_t b )
{
  if( !simHeap() ) return __real_calloc( a, b );
  bool f; void * p = heapAlloc( a * b, 16, f ); if( f ) { errno = ENOMEM; return nullptr; }
  return __real_memset( p, 0, a * b );
}
void __wrap_free( void * p ) { if( p && isArena( p ) ) heapFree( p ); else __real_free( p ); }
void * __wrap_realloc( void * p, size_t n )
{
  if( p && !isArena( p ) ) return __real_realloc( p, n );
  if( !p ) return __wrap_malloc( n );
  auto it = g_blocks->find( reinterpret_cast< uintptr_t >( p ) );
  size_t old = it == g_blocks->end() ? 0 : it->second;
  void * q = __wrap_malloc( n );
  if( q ) { __real_memcpy( q, p, old < n ? old : n ); heapFree( p ); }
  return q;
}

// ---- locks ------------------------------------------------------------------------------------------------------
#define REAL( name ) static decltype( &name ) real = nullptr; if( !real ) real = reinterpret_cast< decltype( &name ) >( dlsym( RTLD_NEXT, #name ) )
int pthread_mutex_lock( pthread_mutex_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_mutex_lock ); return real( m ); } return mtxLock( m, ( m->__data.__kind & 3 ) == 1, false ); }
int pthread_mutex_trylock( pthread_mutex_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_mutex_trylock ); return real( m ); } return mtxLock( m, ( m->__data.__kind & 3 ) == 1, true ); }
int pthread_mutex_unlock( pthread_mutex_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_mutex_unlock ); return real( m ); } return mtxUnlock( m ); }
int pthread_rwlock_rdlock( pthread_rwlock_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_rwlock_rdlock ); return real( m ); } return rdLock( m, false ); }
int pthread_rwlock_tryrdlock( pthread_rwlock_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_rwlock_tryrdlock ); return real( m ); } return rdLock( m, true ); }
int pthread_rwlock_wrlock( pthread_rwlock_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_rwlock_wrlock ); return real( m ); } return mtxLock( m, false, false ); }
int pthread_rwlock_trywrlock( pthread_rwlock_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_rwlock_trywrlock ); return real( m ); } return mtxLock( m, false, true ); }
int pthread_rwlock_unlock( pthread_rwlock_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_rwlock_unlock ); return real( m ); } return mtxUnlock( m ); }
int pthread_spin_lock( pthread_spinlock_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_spin_lock ); return real( m ); } return mtxLock( const_cast< const int * >( m ), false, false ); }
int pthread_spin_trylock( pthread_spinlock_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_spin_trylock ); return real( m ); } return mtxLock( const_cast< const int * >( m ), false, true ); }
int pthread_spin_unlock( pthread_spinlock_t * m ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_spin_unlock ); return real( m ); } return mtxUnlock( const_cast< const int * >( m ) ); }

static int condWait( pthread_cond_t * c, pthread_mutex_t * m, uint64_t wake )
{
  Thr * t = self_;
  bool rec = ( m->__data.__kind & 3 ) == 1;
  mtxUnlock( m );
  bool to;
  { RtGuard g( t ); blockOn( c, wake ); to = t->timedOut; acquire( c ); }
  mtxLock( m, rec, false );
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m ) { if( !self_ || self_->rt ) { REAL( pthread_cond_wait ); return real( c, m ); } return condWait( c, m, ~0ull ); }
int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts ) { if( !self_ || self_->rt ) { REAL( pthread_cond_timedwait ); return real( c, m, ts ); } return condWait( c, m, g_time + 1000 ); }
int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts ) { if( !self_ || self_->rt ) { REAL( pthread_cond_clockwait ); return real( c, m, k, ts ); } return condWait( c, m, g_time + 1000 ); }
int pthread_cond_signal( pthread_cond_t * c ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_cond_signal ); return real( c ); } RtGuard g( self_ ); release( c ); wakeOne( c ); return 0; }
int pthread_cond_broadcast( pthread_cond_t * c ) noexcept { if( !self_ || self_->rt ) { REAL( pthread_cond_broadcast ); return real( c ); } RtGuard g( self_ ); release( c ); wakeAll( c ); return 0; }

// once and function-local statics
static int onceEnter( const void * p )       // 1: run the initialiser
{
  Thr * t = self_;
  point( K_SYNC, reinterpret_cast< uintptr_t >( p ) );
  RtGuard g( t );
  for( ;; )
  {
    SyncObj & s = syncOf( p );
    if( s.once == 2 ) { acquire( p ); return 0; }
    if( s.once == 0 ) { s.once = 1; s.owner = t->id; t->held++; return 1; }
    if( s.owner == t->id ) fail( "deadlock", "recursive one-time initialisation" );
    blockOn( p );
  }
}
static void onceLeave( const void * p, bool ok )
{
  Thr * t = self_;
  RtGuard g( t );
  SyncObj & s = syncOf( p );
  s.once = ok ? 2 : 0; s.owner = -1; t->held--;
  release( p );
  wakeAll( p );
}
int pthread_once( pthread_once_t * o, void ( *f )( void ) )
{
  if( !self_ || self_->rt ) { REAL( pthread_once ); return real( o, f ); }
  if( *reinterpret_cast< volatile int * >( o ) == 2 ) { RtGuard g( self_ ); acquire( o ); return 0; }     // done before the threads started
  if( onceEnter( o ) )
  {
    try { f(); } catch( ... ) { onceLeave( o, false ); throw; }
    onceLeave( o, true );
  }
  return 0;
}
int __cxa_guard_acquire( long long * g )
{
  char * b = reinterpret_cast< char * >( g );
  if( *b ) { if( self_ && !self_->rt && !inExe( reinterpret_cast< uintptr_t >( g ) ) ) return 0; if( self_ && !self_->rt ) { RtGuard r( self_ ); acquire( g ); } return 0; }
  if( !self_ || self_->rt ) return 1;
  return onceEnter( g );
}
void __cxa_guard_release( long long * g )
{
  *reinterpret_cast< char * >( g ) = 1;
  if( self_ && !self_->rt ) { onceLeave( g, true ); point( K_SYNC, reinterpret_cast< uintptr_t >( g ) ); }
}
void __cxa_guard_abort( long long * g ) { if( self_ && !self_->rt ) onceLeave( g, false ); }

// ---- time -------------------------------------------------------------------------------------------------------
int sched_yield() noexcept
{
  if( !self_ || self_->rt ) { REAL( sched_yield ); return real(); }
  sleepPoint( 0 );
  return 0;
}
int nanosleep( const struct timespec * a, struct timespec * b ) { if( !self_ || self_->rt ) { REAL( nanosleep ); return real( a, b ); } sleepPoint( 1 + a->tv_nsec / 1000 + a->tv_sec * 1000000 ); return 0; }
int clock_nanosleep( clockid_t c, int fl, const struct timespec * a, struct timespec * b ) { if( !self_ || self_->rt ) { REAL( clock_nanosleep ); return real( c, fl, a, b ); } sleepPoint( 1000 ); return 0; }
int usleep( useconds_t u ) { if( !self_ || self_->rt ) { REAL( usleep ); return real( u ); } sleepPoint( static_cast< int64_t >( u ) ); return 0; }
unsigned sleep( unsigned s ) { if( !self_ || self_->rt ) { REAL( sleep ); return real( s ); } sleepPoint( static_cast< int64_t >( s ) * 1000000 ); return 0; }
int clock_gettime( clockid_t c, struct timespec * ts ) noexcept
{
  if( !self_ || self_->rt ) { REAL( clock_gettime ); return real( c, ts ); }
  uint64_t us = 1700000000000000ull + g_time + g_steps;
  ts->tv_sec = static_cast< time_t >( us / 1000000 ); ts->tv_nsec = static_cast< long >( us % 1000000 ) * 1000;
  return 0;
}

// ---- output -----------------------------------------------------------------------------------------------------
static int fdOf( FILE * f ) { return f == stderr ? 2 : f == stdout ? 1 : 9; }
#define IOPRE() Thr * t_ = self_; point( K_IO, 0 ); RtGuard g_( t_ ); waitStdio()
#define IOPOST() do { --t_->rt; point( K_IO, 0 ); ++t_->rt; } while( 0 )
int vfprintf( FILE * f, const char * fmt, va_list ap )
{
  if( !simIO() || fdOf( f ) == 9 ) { REAL( vfprintf ); return real( f, fmt, ap ); }
  IOPRE();
  int r = outf( fdOf( f ), fmt, ap );
  IOPOST();
  return r;
}
int fprintf( FILE * f, const char * fmt, ... ) { va_list ap; va_start( ap, fmt ); int r = vfprintf( f, fmt, ap ); va_end( ap ); return r; }
int vprintf( const char * fmt, va_list ap ) { return vfprintf( stdout, fmt, ap ); }
int printf( const char * fmt, ... ) { va_list ap; va_start( ap, fmt ); int r = vfprintf( stdout, fmt, ap ); va_end( ap ); return r; }
int __vfprintf_chk( FILE * f, int, const char * fmt, va_list ap ) { return vfprintf( f, fmt, ap ); }
int __fprintf_chk( FILE * f, int, const char * fmt, ... ) { va_list ap; va_start( ap, fmt ); int r = vfprintf( f, fmt, ap ); va_end( ap ); return r; }
int __printf_chk( int, const char * fmt, ... ) { va_list ap; va_start( ap, fmt ); int r = vfprintf( stdout, fmt, ap ); va_end( ap ); return r; }
static long emitCall( int fd, const char * p, size_t n, bool stdioLayer )
{
  IOPRE();
  long r = emit( fd, p, n, stdioLayer );
  int e = errno;
  IOPOST();
  errno = e;
  return r;
}
int fputs( const char * s, FILE * f ) { if( !simIO() || fdOf( f ) == 9 ) { REAL( fputs ); return real( s, f ); } return emitCall( fdOf( f ), s, std::strlen( s ), true ) < 0 ? EOF : 1; }
int puts( const char * s )
{
  if( !simIO() ) { REAL( puts ); return real( s ); }
  std::string x; { RtGuard g( self_ ); x = s; x += '\n'; }
  int r = emitCall( 1, x.data(), x.size(), true ) < 0 ? EOF : 1;
  RtGuard g( self_ ); x = std::string();
  return r;
}
int fputc( int ch, FILE * f ) { if( !simIO() || fdOf( f ) == 9 ) { REAL( fputc ); return real( ch, f ); } char x = static_cast< char >( ch ); return emitCall( fdOf( f ), &x, 1, true ) < 0 ? EOF : ch; }
#undef putc
#undef putchar
int putc( int ch, FILE * f ) { return fputc( ch, f ); }
int putchar( int ch ) { return fputc( ch, stdout ); }
size_t fwrite( const void * p, size_t a, size_t b, FILE * f )
{
  if( !simIO() || fdOf( f ) == 9 ) { REAL( fwrite ); return real( p, a, b, f ); }
  return emitCall( fdOf( f ), static_cast< const char * >( p ), a * b, true ) < 0 ? 0 : b;
}
int ferror( FILE * f ) noexcept { if( !simIO() || fdOf( f ) == 9 ) { REAL( ferror ); return real( f ); } return g_streamError[fdOf( f )]; }
void clearerr( FILE * f ) noexcept { if( !simIO() || fdOf( f ) == 9 ) { REAL( clearerr ); real( f ); return; } g_streamError[fdOf( f )] = false; }
#undef ferror_unlocked
#undef clearerr_unlocked
int ferror_unlocked( FILE * f ) noexcept { return ferror( f ); }
void clearerr_unlocked( FILE * f ) noexcept { clearerr( f ); }
int fflush( FILE * f ) { if( !simIO() ) { REAL( fflush ); return real( f ); } point( K_IO, 0 ); return 0; }
ssize_t write( int fd, const void * p, size_t n )
{
  if( !simIO() || fd > 2 || fd < 1 ) return syscall( SYS_write, fd, p, n );
  Thr * t = self_;
  point( K_IO, 0 );
  ssize_t r;
  { RtGuard g( t ); r = emit( fd, static_cast< const char * >( p ), n, false ); }
  int e = errno;
  point( K_IO, 0 );
  errno = e;
  return r;
}
int vdprintf( int fd, const char * fmt, va_list ap )
{
  if( !simIO() || fd > 2 || fd < 1 ) { REAL( vdprintf ); return real( fd, fmt, ap ); }
  Thr * t = self_;
  point( K_IO, 0 );
  RtGuard g( t );
  return outf( fd, fmt, ap );
}
int dprintf( int fd, const char * fmt, ... ) { va_list ap; va_start( ap, fmt ); int r = vdprintf( fd, fmt, ap ); va_end( ap ); return r; }
void flockfile( FILE * f ) noexcept { if( !simIO() || fdOf( f ) == 9 ) { REAL( flockfile ); real( f ); return; } mtxLock( &g_ioMutex, true, false ); }
void funlockfile( FILE * f ) noexcept { if( !simIO() || fdOf( f ) == 9 ) { REAL( funlockfile ); real( f ); return; } mtxUnlock( &g_ioMutex ); }

// ---- string functions of the C library: their memory accesses are scheduling points too ---------------------------
static bool simStr() { return self_ && self_->win && !self_->rt; }
static void rd( const void * p, size_t n ) { if( n && simStr() ) access( reinterpret_cast< uintptr_t >( p ), n, false ); }
static void wrt( const void * p, size_t n ) { if( n && simStr() ) access( reinterpret_cast< uintptr_t >( p ), n, true ); }
int vsnprintf( char * b, size_t n, const char * f, va_list ap ) noexcept
{
  REAL( vsnprintf );
  if( !simStr() ) return real( b, n, f, ap );
  point( K_IO, 0 );
  ++self_->rt; int r = real( b, n, f, ap ); int e = errno; --self_->rt;
  if( r >= 0 && n ) wrt( b, static_cast< size_t >( r ) + 1 < n ? static_cast< size_t >( r ) + 1 : n );
  errno = e;
  return r;
}
int snprintf( char * b, size_t n, const char * f, ... ) noexcept { va_list ap; va_start( ap, f ); int r = vsnprintf( b, n, f, ap ); va_end( ap ); return r; }
int vsprintf( char * b, const char * f, va_list ap ) noexcept { return vsnprintf( b, 0x7fffffff, f, ap ); }
int sprintf( char * b, const char * f, ... ) noexcept { va_list ap; va_start( ap, f ); int r = vsnprintf( b, 0x7fffffff, f, ap ); va_end( ap ); return r; }

// functions of the C library that allocate
static void * libAlloc( size_t n ) { bool f; void * p = heapAlloc( n, 16, f ); if( f ) errno = ENOMEM; return p; }
int vasprintf( char ** out, const char * f, va_list ap ) noexcept
{
  if( !simHeap() ) { REAL( vasprintf ); return real( out, f, ap ); }
  point( K_IO, 0 );
  va_list c;
  va_copy( c, ap );
  static int ( *form )( char *, size_t, const char *, va_list ) = reinterpret_cast< decltype( form ) >( dlsym( RTLD_NEXT, "vsnprintf" ) );
  ++self_->rt; int n = form( nullptr, 0, f, c ); int e = errno; --self_->rt;
  va_end( c );
  errno = e;
  if( n < 0 ) return -1;
  char * p = static_cast< char * >( libAlloc( static_cast< size_t >( n ) + 1 ) );
  if( !p ) return -1;
  ++self_->rt; form( p, static_cast< size_t >( n ) + 1, f, ap ); --self_->rt;
  wrt( p, static_cast< size_t >( n ) + 1 );
  wrt( out, sizeof *out );
  *out = p;
  return n;
}
int asprintf( char ** out, const char * f, ... ) noexcept { va_list ap; va_start( ap, f ); int r = vasprintf( out, f, ap ); va_end( ap ); return r; }
static char * dupOf( const char * s, size_t n ) { char * p = static_cast< char * >( libAlloc( n + 1 ) ); if( p ) { rd( s, n ); __real_memcpy( p, s, n ); p[n] = 0; } return p; }
char * __wrap_strdup( const char * s ) { if( !simHeap() ) return __real_strdup( s ); return dupOf( s, __real_strlen( s ) ); }
char * __wrap_strndup( const char * s, size_t n ) { if( !simHeap() ) return __real_strndup( s, n ); return dupOf( s, strnlen( s, n ) ); }
FILE * open_memstream( char ** b, size_t * n ) noexcept
{
  REAL( open_memstream );
  if( simHeap() ) { void * p = libAlloc( 1 ); if( !p ) return nullptr; heapFree( p ); }
  return real( b, n );
}
FILE * fmemopen( void * b, size_t n, const char * m ) noexcept
{
  REAL( fmemopen );
  if( simHeap() ) { void * p = libAlloc( 1 ); if( !p ) return nullptr; heapFree( p ); }
  return real( b, n, m );
}

// ---- termination --------------------------------------------------------------------------------------------------
void abort() noexcept { if( !self_ || self_->rt ) { REAL( abort ); real(); __builtin_unreachable(); } terminated( T_ABORT, 0 ); }
void exit( int c ) noexcept { if( !self_ || self_->rt ) { REAL( exit ); real( c ); __builtin_unreachable(); } terminated( T_EXIT, c ); }
void quick_exit( int c ) noexcept { if( !self_ || self_->rt ) { REAL( quick_exit ); real( c ); __builtin_unreachable(); } terminated( T_EXIT, c ); }
void _exit( int c ) { if( !self_ || self_->rt || !self_->win ) rawExit( c ); terminated( T_EXIT, c ); }
void _Exit( int c ) noexcept { if( !self_ || self_->rt ) { rawExit( c ); } terminated( T_EXIT, c ); }

} // extern "C"

// ---- operator new ---------------------------------------------------------------------------------------------------
void * operator new( size_t n )
{
  if( !simHeap() ) { void * p = __real_malloc( n ? n : 1 ); if( !p ) throw std::bad_alloc(); return p; }
  bool f; void * p = heapAlloc( n, 16, f );
  if( f ) throw std::bad_alloc();
  return p;
}
void * operator new[]( size_t n ) { return operator new( n ); }
void * operator new( size_t n, std::nothrow_t const & ) noexcept
{
  if( !simHeap() ) return __real_malloc( n ? n : 1 );
  bool f; return heapAlloc( n, 16, f );
}
void * operator new[]( size_t n, std::nothrow_t const & t ) noexcept { return operator new( n, t ); }
void * operator new( size_t n, std::align_val_t al )
{
  if( !simHeap() ) { void * p = aligned_alloc( static_cast< size_t >( al ), ( n + static_cast< size_t >( al ) - 1 ) / static_cast< size_t >( al ) * static_cast< size_t >( al ) ); if( !p ) throw std::bad_alloc(); return p; }
  bool f; void * p = heapAlloc( n, static_cast< size_t >( al ), f );
  if( f ) throw std::bad_alloc();
  return p;
}
void * operator new[]( size_t n, std::align_val_t al ) { return operator new( n, al ); }
void operator delete( void * p ) noexcept { __wrap_free( p ); }
void operator delete[]( void * p ) noexcept { __wrap_free( p ); }
void operator delete( void * p, size_t ) noexcept { __wrap_free( p ); }
void operator delete[]( void * p, size_t ) noexcept { __wrap_free( p ); }
void operator delete( void * p, std::align_val_t ) noexcept { __wrap_free( p ); }
void operator delete[]( void * p, std::align_val_t ) noexcept { __wrap_free( p ); }
void operator delete( void * p, size_t, std::align_val_t ) noexcept { __wrap_free( p ); }
void operator delete[]( void * p, size_t, std::align_val_t ) noexcept { __wrap_free( p ); }
