// Simulated accelerator and its runtime (CUDA- and HIP-named), for host compilers.
// One device with a separate memory, one in-order default stream run by a simulated device thread,
// asynchronous launches, per-thread "last error", sticky errors after a kernel fault, injected call failures.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>

namespace sim { void * arenaAlloc( size_t bytes, size_t align ); void leave(); void enter(); }

namespace simdev
{
struct Dim3 { unsigned x, y, z; constexpr Dim3( unsigned a = 1, unsigned b = 1, unsigned c = 1 ): x( a ), y( b ), z( c ) {} };
struct Cfg { Dim3 g, b; constexpr Cfg( Dim3 gg, Dim3 bb, size_t = 0, void * = nullptr ): g( gg ), b( bb ) {} };
extern Dim3 g_threadIdx, g_blockIdx, g_blockDim, g_gridDim;

// errors, numbered as CUDA does
enum Err : int { E_OK = 0, E_INVALID_VALUE = 1, E_NOMEM = 2, E_INVALID_CONFIG = 9, E_MEMCPY_DIR = 21, E_INVALID_PTR = 17, E_UNKNOWN = 999, E_LAUNCH = 719, E_ILLEGAL = 700 };
enum Dir : int { HOST2HOST = 0, HOST2DEV = 1, DEV2HOST = 2, DEV2DEV = 3, DEFAULT_DIR = 4 };

int apiMalloc( void * * p, size_t n );
int apiFree( void * p );
int apiCopy( void * d, const void * s, size_t n, int dir );
int apiSet( void * d, int v, size_t n );
int apiSync();
int apiLastError( bool clear );
const char * apiErrorString( int e );
bool apiLaunchOk( Cfg const & c );                       // counts the call and injects failures
void apiEnqueue( Cfg const & c, void ( *fn )( void * ), void * closure );

struct DeviceFault { int code; };

template< typename F, typename ... A >
void launch( Cfg const & c, F, A && ... a )
{
  if( !apiLaunchOk( c ) ) return;
  using Tup = std::tuple< std::decay_t< A >... >;
  void * mem = sim::arenaAlloc( sizeof( Tup ), alignof( Tup ) );
  new( mem ) Tup( std::forward< A >( a ) ... );          // kernel arguments are copied at launch
  apiEnqueue( c, []( void * m ) { std::apply( []( auto & ... x ) { F * f = nullptr; ( *f )( x ... ); }, *static_cast< Tup * >( m ) ); }, mem );
}

// ---- for the workload ------------------------------------------------------------------------------------------
struct OpStat { int calls, errs, mallocs, launches; bool faulted; };
void reset( int deviceTid, int hostOps );
OpStat & stat( int op );
void deviceLoop();                                       // runs on the device thread until all host operations are over
void hostOpsDone( int n );
int unreleased( int op );                                // device allocations of this operation still live
const void * region();
size_t regionSize();
bool liveRange( const void * p, size_t n );
}

#define SIMDEV_API( P, ERR ) \
  typedef void * P ## Stream_t; typedef void * P ## Event_t; \
  inline P ## Error_t P ## Free( void * p ) { return static_cast< P ## Error_t >( simdev::apiFree( p ) ); } \
  template< typename T > P ## Error_t P ## Malloc( T * * p, size_t n ) { return static_cast< P ## Error_t >( simdev::apiMalloc( reinterpret_cast< void * * >( p ), n ) ); } \
  inline P ## Error_t P ## Memcpy( void * d, const void * s, size_t n, P ## MemcpyKind k ) { return static_cast< P ## Error_t >( simdev::apiCopy( d, s, n, k ) ); } \
  inline P ## Error_t P ## MemcpyAsync( void * d, const void * s, size_t n, P ## MemcpyKind k, P ## Stream_t = nullptr ) { return static_cast< P ## Error_t >( simdev::apiCopy( d, s, n, k ) ); } \
  inline P ## Error_t P ## Memset( void * d, int v, size_t n ) { return static_cast< P ## Error_t >( simdev::apiSet( d, v, n ) ); } \
  inline P ## Error_t P ## DeviceSynchronize() { return static_cast< P ## Error_t >( simdev::apiSync() ); } \
  inline P ## Error_t P ## StreamSynchronize( P ## Stream_t ) { return static_cast< P ## Error_t >( simdev::apiSync() ); } \
  inline P ## Error_t P ## GetLastError() { return static_cast< P ## Error_t >( simdev::apiLastError( true ) ); } \
  inline P ## Error_t P ## PeekAtLastError() { return static_cast< P ## Error_t >( simdev::apiLastError( false ) ); } \
  inline const char * P ## GetErrorString( P ## Error_t e ) { return simdev::apiErrorString( e ); } \
  inline const char * P ## GetErrorName( P ## Error_t e ) { return simdev::apiErrorString( e ); } \
  inline P ## Error_t P ## MemsetAsync( void * d, int v, size_t n, P ## Stream_t = nullptr ) { return static_cast< P ## Error_t >( simdev::apiSet( d, v, n ) ); } \
  template< typename T > P ## Error_t P ## MallocAsync( T * * p, size_t n, P ## Stream_t ) { return static_cast< P ## Error_t >( simdev::apiMalloc( reinterpret_cast< void * * >( p ), n ) ); } \
  inline P ## Error_t P ## FreeAsync( void * p, P ## Stream_t ) { return static_cast< P ## Error_t >( simdev::apiFree( p ) ); } \
  /* streams and events all stand for the one in-order stream */ \
  inline P ## Error_t P ## StreamCreate( P ## Stream_t * s ) { *s = nullptr; return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## StreamCreateWithFlags( P ## Stream_t * s, unsigned ) { *s = nullptr; return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## StreamDestroy( P ## Stream_t ) { return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## EventCreate( P ## Event_t * e ) { *e = nullptr; return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## EventCreateWithFlags( P ## Event_t * e, unsigned ) { *e = nullptr; return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## EventRecord( P ## Event_t, P ## Stream_t = nullptr ) { return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## EventSynchronize( P ## Event_t ) { return static_cast< P ## Error_t >( simdev::apiSync() ); } \
  inline P ## Error_t P ## EventDestroy( P ## Event_t ) { return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## HostRegister( void *, size_t, unsigned = 0 ) { return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## HostUnregister( void * ) { return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## MemGetInfo( size_t * f, size_t * t ) { *f = *t = simdev::regionSize(); return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## GetDevice( int * d ) { *d = 0; return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## SetDevice( int ) { return static_cast< P ## Error_t >( 0 ); } \
  inline P ## Error_t P ## GetDeviceCount( int * d ) { *d = 1; return static_cast< P ## Error_t >( 0 ); }

#define __global__
#define __host__
#define __device__
#undef __forceinline__
#define __forceinline__ inline
using dim3 = simdev::Dim3;
#define threadIdx simdev::g_threadIdx
#define blockIdx simdev::g_blockIdx
#define blockDim simdev::g_blockDim
#define gridDim simdev::g_gridDim
#define __shared__
#define __launch_bounds__( ... )
inline void __syncthreads() {}
inline void __threadfence() {}

#if defined(SIMDEV_HIP)
enum hipError_t : int { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorOutOfMemory = 2, hipErrorMemoryAllocation = 2, hipErrorInvalidConfiguration = 9, hipErrorInvalidDevicePointer = 17, hipErrorInvalidMemcpyDirection = 21, hipErrorNotReady = 600, hipErrorIllegalAddress = 700, hipErrorLaunchFailure = 719, hipErrorUnknown = 999 };
enum hipMemcpyKind : int { hipMemcpyHostToHost = 0, hipMemcpyHostToDevice = 1, hipMemcpyDeviceToHost = 2, hipMemcpyDeviceToDevice = 3, hipMemcpyDefault = 4 };
SIMDEV_API( hip, hip )
template< typename T > hipError_t hipMallocManaged( T * * p, size_t n, unsigned = 1 ) { return hipMalloc( p, n ); }
#define hipLaunchKernelGGL( K, G, B, S, ST, ... ) ::simdev::launch( ::simdev::Cfg( G, B ), []( auto & ... simdev_a ) { K( simdev_a ... ); }, __VA_ARGS__ )
#else
enum cudaError_t : int { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorInvalidDevicePointer = 17, cudaErrorInvalidMemcpyDirection = 21, cudaErrorNotReady = 600, cudaErrorIllegalAddress = 700, cudaErrorLaunchFailure = 719, cudaErrorUnknown = 999 };
using cudaError = cudaError_t;
enum cudaMemcpyKind : int { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
SIMDEV_API( cuda, cuda )
template< typename T > cudaError_t cudaMallocManaged( T * * p, size_t n, unsigned = 1 ) { return cudaMalloc( p, n ); }
#endif
