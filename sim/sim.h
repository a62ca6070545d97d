// Deterministic simulator for in-process (multi-threaded) code: workload-side API.
// The code under test and the workloads are compiled with -fsanitize=thread but linked against simrt.cpp
// instead of libtsan, so that every memory access that is not to the running thread's own stack is a
// scheduling point of a seeded scheduler.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>

namespace sim
{

constexpr int MAXT = 6;        // simulated threads
constexpr int MAXOPS = 192;
constexpr int MAXARGS = 12;
constexpr int MAXFAULTS = 3;

// fault kinds; what each means for an operation is documented in DESIGN.md
enum Fault : int
{
  F_NONE = 0,
  F_INTERRUPT,     // p0 = permille of the op's length, p1 = id of the op to run nested on the same thread
  F_THROW,         // the user callback throws at its p0-th call
  F_BLOCK,         // the user callback blocks (simulated sleep) at its p0-th call
  F_NEST,          // the user callback evaluates again (re-entrancy) at its p0-th call, p1 = nested op id
  F_ALLOC,         // the p0-th allocation of the op fails
  F_IO,            // the p0-th write of the op to stdout/stderr misbehaves: p1 = mode
  F_BITFLIP,       // bit p1 of index p0 is flipped
  F_STALL,         // the thread does not run until nothing else can, from point p0 on
  F_API,           // the p0-th device API call of the run fails with error p1
  F_JUNK,          // outputs and dead stack hold garbage beforehand
  F_KIND_COUNT
};

struct FaultSpec { int kind; int64_t p0, p1; };

struct Op
{
  int id, phase, tid, kind;      // phase -1: runs only nested
  int nargs;
  int64_t a[MAXARGS];
  int nf;
  FaultSpec f[MAXFAULTS];
};

enum Policy : int { P_SERIAL = 0, P_RANDOM, P_PCT, P_TARGET, P_EXPLICIT };

struct Switch { int tid; uint64_t local; int to; };

struct Plan
{
  uint64_t seed;
  int nthreads;
  int policy;
  int64_t pol[4];        // policy parameters
  uint64_t polseed;
  int nops;
  Op ops[MAXOPS];
  int nparam;
  int64_t param[16];     // workload-wide parameters
};

struct Rng
{
  uint64_t s;
  explicit Rng( uint64_t x ): s( x * 0x9E3779B97F4A7C15ull + 0x1234567ull ) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
  }
  int64_t below( int64_t n ) { return n <= 0 ? 0 : static_cast< int64_t >( next() % static_cast< uint64_t >( n ) ); }
  int64_t range( int64_t lo, int64_t hi ) { return lo + below( hi - lo + 1 ); }
  bool chance( int permille ) { return below( 1000 ) < permille; }
  double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
};

// ---- services (simrt.cpp) -------------------------------------------------------------------------------
[[noreturn]] void fail( const char * cls, const char * fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
void enter();                       // start of a window: accesses become scheduling points
void leave();
bool inWindow();
void yieldPoint( const char * what );        // explicit scheduling point (user callbacks)
void sleepPoint( int64_t ticks );            // simulated blocking of the calling thread
void runNested( int opId );
void * arenaAlloc( size_t bytes, size_t align = 16 );   // deterministic addresses, zeroed
void addRedzoned( void * p, size_t bytes );
void faultFired( int kind );
void faultSeen( int kind );
void probe( int idx );                       // rare-condition probes, counted over the batch
void mixHash( uint64_t v );
const FaultSpec * faultOf( Op const & op, int kind );
uint64_t opLength( uint64_t sig );           // points used by an earlier run of this op (0: unknown)
Plan const & plan();
int self();
Rng & opRng( Op const & op );
void watchInput( const void * p, size_t n );    // any in-window write to it is a violation
void unwatchInput( const void * p, size_t n );
void watchTrap( const void * p, size_t n );     // any in-window access to it is a violation (redzones)
bool wouldTrap( const void * p );
void unwatchTrap( const void * p, size_t n );
void touch( const void * p, size_t n, bool write );   // an access by the calling thread: scheduling point, race and trap checks
Op const * currentOp();
// blocking and ordering for simulated components
void waitFor( const void * key );               // blocks until notify( key )
void notify( const void * key );
void hbRelease( const void * key );
void hbAcquire( const void * key );
// restricts the calling thread inside [obj, obj+n) to [el, el+en), optionally read-only; unconfine lifts it
void confine( const void * obj, size_t n, const void * el, size_t en, bool allowWrite );
void unconfine();
uint64_t confinedHits();                        // accesses to the allowed part since confine()

// results keyed by signature: the first result is kept, later ones must be bitwise equal
void sameBits( uint64_t sig, const void * p, size_t n, const char * what );

// simulated process-wide output (stdout+stderr), with per-byte attribution
struct OutByte { char c; uint8_t fd; uint8_t tid; int16_t op; uint32_t call; };
size_t outSize();
OutByte const & outAt( size_t i );

// process termination requested by code under test: delivered to the workload
enum TermKind : int { T_ABORT = 1, T_EXIT = 2, T_TRAP = 3 };

struct OpAborted { int kind; int code; };

// flags a workload sets
extern bool g_abortSignalReturns;      // the program ignores SIGABRT, or handles it and carries on
extern int g_termMode;      // 0: termination is a violation; 1: the calling thread parks for good (the process is dying)
extern int g_trapAccess;

struct Window
{
  Window() { enter(); }
  ~Window() { leave(); }
};

inline uint64_t mix( uint64_t h, uint64_t v )
{
  h ^= v + 0x9E3779B97F4A7C15ull + ( h << 6 ) + ( h >> 2 );
  h *= 0xff51afd7ed558ccdull;
  return h ^ ( h >> 33 );
}
uint64_t opSig( Op const & op );

// ---- supplied by the workload ------------------------------------------------------------------------------
const char * wlName();
int wlKinds();
const char * wlKindName( int kind );
const char * wlProbeName( int idx );
void wlGen( Rng & r, Plan & p, int tier );
void wlSetup( Plan const & p );
void wlOp( Op const & op );
void wlFinish();
void wlTerminated( Op const * op, int kind, int code ); // in g_termMode 1, called on the thread that terminates

// plan helpers
Op & addOp( Plan & p, int phase, int tid, int kind );
inline void addArg( Op & o, int64_t v ) { if ( o.nargs < MAXARGS ) o.a[o.nargs++] = v; }
inline void addFault( Op & o, int kind, int64_t p0 = 0, int64_t p1 = 0 ) { if ( o.nf < MAXFAULTS ) o.f[o.nf++] = FaultSpec{ kind, p0, p1 }; }
void genPolicy( Rng & r, Plan & p );

} // namespace sim
