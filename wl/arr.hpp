// Arrays, views and slices behind a uniform run-time interface, shared by C03 and C04.
#pragma once
#include "common.hpp"
#include "shiva/common/CArray.hpp"
#include <new>

namespace arr
{
using Idx = const int64_t *;

enum { CALL, CALLT, CT, CHAIN, CCALL, CCALLT, CCHAIN, MIXED, CMIXED, RAW, SL1, SL1C, SL2, SL2C, NPATH };
static const char * const pathNames[] = { "call", "call with other index types", "compile-time call", "chained subscripts", "const call", "const call with other index types", "const chained subscripts",
                                          "subscript then call", "const subscript then call", "raw data", "held slice", "held const slice", "held two-level slice", "held const two-level slice" };
inline bool isConstPath( int p ) { return p == CCALL || p == CCALLT || p == CCHAIN || p == CMIXED || p == SL1C || p == SL2C; }
inline bool isSlice( int p ) { return p >= SL1; }

#if defined( EXOTIC )
constexpr int MAXRANK = 7, NTYPES = 12, NCOMBO = 18;
#else
constexpr int MAXRANK = 7, NTYPES = 8, NCOMBO = 12;
#endif
// smallest/largest value of each index type
inline bool fits( int type, int64_t v )
{
  switch( type )
  {
    case 0: return v >= INT32_MIN && v <= INT32_MAX;
    case 1: return v >= 0 && v <= UINT32_MAX;
    case 2: return true;
    case 3: return v >= 0;
    case 4: return v >= -128 && v <= 127;
    case 5: return v >= 0 && v <= 255;
    case 6: return v >= -32768 && v <= 32767;
    case 8: return v >= 0 && v <= 1;
    case 9: return v >= INT32_MIN && v <= INT32_MAX;
    case 10: case 11: return true;
    default: return v >= 0 && v <= 65535;
  }
}
template< int T > struct TypeOf;
template<> struct TypeOf< 0 > { using type = int; };
template<> struct TypeOf< 1 > { using type = unsigned; };
template<> struct TypeOf< 2 > { using type = int64_t; };
template<> struct TypeOf< 3 > { using type = uint64_t; };
template<> struct TypeOf< 4 > { using type = int8_t; };
template<> struct TypeOf< 5 > { using type = uint8_t; };
template<> struct TypeOf< 6 > { using type = int16_t; };
template<> struct TypeOf< 7 > { using type = uint16_t; };
// less usual ones, which not every sound implementation has to take: explored in a variant of its own
enum Named : int {};
template<> struct TypeOf< 8 > { using type = bool; };
template<> struct TypeOf< 9 > { using type = Named; };
template<> struct TypeOf< 10 > { using type = __int128; };
template<> struct TypeOf< 11 > { using type = long long; };
// type of position k in combination c
constexpr int comboType( int c, int k )
{
  if( c >= 12 )
  {
    int const e[6][2] = { { 8, 8 }, { 8, 0 }, { 0, 8 }, { 9, 9 }, { 10, 2 }, { 11, 9 } };
    return e[c - 12][k % 2];
  }
  return c < 8 ? c : c == 8 ? ( k % 2 ? 3 : 0 ) : c == 9 ? ( k % 2 ? 0 : 3 ) : c == 10 ? ( k % 2 ? 3 : 4 ) : ( k % 2 ? 2 : 7 );
}

struct Ty
{
  char name[48], tn[8];
  int kind;                      // 0 owning array, 1 view, 2 view to const
  int rank, total, dims[MAXRANK];
  size_t elem, objSize;
  void ( *create )( void * obj, void * buf );
  void ( *copyTo )( void * dst, const void * src );       // copy-construct
  void ( *assignTo )( void * dst, const void * src );     // owning arrays only
  void ( *list )( void * obj, int which, const int64_t * v ); // from a list of numbers: all, half of them, one; small owning arrays only
  int listed( int which ) const { return which == 0 ? total : which == 1 ? ( total + 1 ) / 2 : 1; }
  // run-time paths; ct is the linear index for the compile-time path, type the index type combination
  void * ( *path[NPATH] )( void * obj, Idx i, int type );
  // slices: depth 1 or 2, const or not; returns the size of the slice object
  void ( *take[4] )( void * obj, Idx i, void * mem );
  bool large() const { return total > 64; }
  // compile-time access to a large array is instantiated for some elements only
  int ctStep() const { return large() ? total / 29 : 1; }
  int sliceDims( int p ) const { return p == SL1 || p == SL1C ? 1 : 2; }
};

template< typename T > void * vp( T & r ) { return const_cast< void * >( static_cast< const void * >( &r ) ); }

template< typename A, int ... D > struct Ops
{
  static constexpr int R = sizeof...( D );
  using Seq = std::make_integer_sequence< int, R >;

  template< typename B, int ... K > static void * callI( B & b, Idx i, std::integer_sequence< int, K... > ) { return vp( b( static_cast< int >( i[K] )... ) ); }
  template< typename B, int C, int ... K > static void * callC( B & b, Idx i, std::integer_sequence< int, K... > ) { return vp( b( static_cast< typename TypeOf< comboType( C, K ) >::type >( i[K] )... ) ); }
  template< typename B, int ... C > static void * callTI( B & b, Idx i, int t, std::integer_sequence< int, C... > )
  {
    using F = void * ( * )( B &, Idx, Seq );
    F f[] = { []( B & x, Idx j, Seq s ) -> void * { return callC< B, C >( x, j, s ); } ... };
    return f[t]( b, i, Seq{} );
  }
  template< typename B > static void * chainOf( B && b, Idx i )
  {
    if constexpr ( std::decay_t< B >::rank() == 1 ) return vp( b[static_cast< int >( i[0] )] );
    else { auto s = b[static_cast< int >( i[0] )]; return chainOf( s, i + 1 ); }
  }
  template< typename B > static void * chainDirect( B & b, Idx i )
  {
    if constexpr ( R == 1 ) return vp( b[static_cast< int >( i[0] )] );
    else if constexpr ( R == 2 ) return vp( b[static_cast< int >( i[0] )][static_cast< int >( i[1] )] );
    else if constexpr ( R == 3 ) return vp( b[static_cast< int >( i[0] )][static_cast< int >( i[1] )][static_cast< int >( i[2] )] );
    else if constexpr ( R == 4 ) return vp( b[static_cast< int >( i[0] )][static_cast< int >( i[1] )][static_cast< int >( i[2] )][static_cast< int >( i[3] )] );
    else
    {
      auto && s = b[static_cast< int >( i[0] )][static_cast< int >( i[1] )][static_cast< int >( i[2] )][static_cast< int >( i[3] )];
      return chainOf( s, i + 4 );
    }
  }
  template< typename B, int ... K > static void * sliceCall( B & s, Idx i, std::integer_sequence< int, K... > ) { return vp( s( static_cast< int >( i[K] )... ) ); }
  template< typename B > static void * mixed( B & b, Idx i )
  {
    if constexpr ( R == 1 ) return vp( b( static_cast< int >( i[0] ) ) );
    else { auto s = b[static_cast< int >( i[0] )]; return sliceCall( s, i + 1, std::make_integer_sequence< int, R - 1 >{} ); }
  }
  static constexpr int dims[] = { D... };
  static constexpr int digit( int lin, int k ) { for( int j = R - 1; j > k; --j ) lin /= dims[j]; return lin % dims[k]; }
  template< int L, int ... K > static void * ctOne( A & a, std::integer_sequence< int, K... > )
  {
    void * p = vp( a.template operator()< digit( L, K )... >() );
    void * q = vp( static_cast< A const & >( a ).template operator()< digit( L, K )... >() );
    return p == q ? p : nullptr;
  }
  template< int STEP, int ... L > static void * ctAll( A & a, int lin, std::integer_sequence< int, L... > )
  {
    using F = void * ( * )( A &, Seq );
    F f[] = { []( A & x, Seq s ) -> void * { return ctOne< L * STEP >( x, s ); } ... };
    return f[lin / STEP]( a, Seq{} );
  }
  template< typename B, int DEPTH > static auto sliceOf( B & b, Idx i )
  {
    if constexpr ( DEPTH == 1 ) return b[static_cast< int >( i[0] )];
    else return b[static_cast< int >( i[0] )][static_cast< int >( i[1] )];
  }
  template< typename B, int DEPTH > static void takeInto( void * obj, Idx i, void * mem )
  {
    using S = decltype( sliceOf< B, DEPTH >( std::declval< B & >(), i ) );
    new( mem ) S( sliceOf< B, DEPTH >( *static_cast< B * >( obj ), i ) );
  }
  template< typename B, int DEPTH > static void * useSlice( void * mem, Idx i, int how )
  {
    using S = decltype( sliceOf< B, DEPTH >( std::declval< B & >(), i ) );
    S & s = *static_cast< S * >( mem );
    constexpr int RR = R - DEPTH;
    switch( how % 3 )
    {
      case 0: return sliceCall( s, i + DEPTH, std::make_integer_sequence< int, RR >{} );
      case 1: return chainOf( s, i + DEPTH );
      default: { S const & c = s; return sliceCall( c, i + DEPTH, std::make_integer_sequence< int, RR >{} ); }
    }
  }
};

// elements from and to numbers; floating-point elements hold any bit pattern but signalling NaNs
template< typename T > T numberToElem( int64_t v )
{
  if constexpr ( std::is_floating_point_v< T > ) { T x; std::conditional_t< sizeof( T ) == 8, uint64_t, uint32_t > b = static_cast< decltype( b ) >( v ); std::memcpy( &x, &b, sizeof x ); return x; }
  else return static_cast< T >( v );
}
template< typename T > int64_t elemToNumber( T x )
{
  if constexpr ( std::is_floating_point_v< T > ) { std::conditional_t< sizeof( T ) == 8, int64_t, int32_t > b; std::memcpy( &b, &x, sizeof b ); return b; }
  else return static_cast< int64_t >( x );
}

template< typename A, typename T, int ... L > void listInto( void * o, const int64_t * v, std::integer_sequence< int, L... > ) { new( o ) A( numberToElem< T >( v[L] )... ); }

template< typename T, int KIND, int ... D > struct ClassOf;
template< typename T, int ... D > struct ClassOf< T, 0, D... > { using type = shiva::CArrayNd< T, D... >; };
template< typename T, int ... D > struct ClassOf< T, 1, D... > { using type = shiva::CArrayViewNd< T, D... >; };
template< typename T, int ... D > struct ClassOf< T, 2, D... > { using type = shiva::CArrayViewNd< T const, D... >; };

template< typename T, int KIND, int ... D >
Ty make( const char * tn )
{
  using A = typename ClassOf< T, KIND, D... >::type;
  using O = Ops< A, D... >;
  constexpr int R = sizeof...( D );
  constexpr int N = ( D * ... );
  Ty y{};
  int d[] = { D... };
  std::snprintf( y.tn, sizeof y.tn, "%s", tn );
  y.kind = KIND; y.rank = R; y.total = N; y.elem = sizeof( T ); y.objSize = sizeof( A );
  int k = std::snprintf( y.name, sizeof y.name, "%s<%s", KIND == 0 ? "array" : KIND == 1 ? "view" : "const-view", tn );
  for( int i = 0; i < R; ++i ) { y.dims[i] = d[i]; k += std::snprintf( y.name + k, sizeof y.name - static_cast< size_t >( k ), ",%d", d[i] ); }
  std::snprintf( y.name + k, sizeof y.name - static_cast< size_t >( k ), ">" );
  if constexpr ( KIND == 0 ) y.create = []( void * o, void * ) { new( o ) A; };
  else y.create = []( void * o, void * b ) { new( o ) A( *static_cast< T ( * )[N] >( b ) ); };
  y.copyTo = []( void * dst, const void * src ) { new( dst ) A( *static_cast< const A * >( src ) ); };
  if constexpr ( KIND == 0 ) y.assignTo = []( void * dst, const void * src ) { *static_cast< A * >( dst ) = *static_cast< const A * >( src ); };
  if constexpr ( KIND == 0 && N <= 64 ) y.list = []( void * o, int which, const int64_t * v )
  {
    if( which == 0 ) listInto< A, T >( o, v, std::make_integer_sequence< int, N >{} );
    else if( which == 1 ) listInto< A, T >( o, v, std::make_integer_sequence< int, ( N + 1 ) / 2 >{} );
    else listInto< A, T >( o, v, std::make_integer_sequence< int, 1 >{} );
  };
  y.path[CALL] = []( void * o, Idx i, int ) { return O::callI( *static_cast< A * >( o ), i, typename O::Seq{} ); };
  y.path[CALLT] = []( void * o, Idx i, int t ) { return O::callTI( *static_cast< A * >( o ), i, t, std::make_integer_sequence< int, NCOMBO >{} ); };
  y.path[CT] = []( void * o, Idx i, int ) { int lin = 0; for( int q = 0; q < R; ++q ) lin = lin * O::dims[q] + static_cast< int >( i[q] ); return O::template ctAll< ( N > 64 ? N / 29 : 1 ) >( *static_cast< A * >( o ), lin, std::make_integer_sequence< int, ( N > 64 ? 29 : N ) >{} ); };
  y.path[CHAIN] = []( void * o, Idx i, int ) { return O::chainDirect( *static_cast< A * >( o ), i ); };
  y.path[CCALL] = []( void * o, Idx i, int ) { return O::callI( *static_cast< A const * >( o ), i, typename O::Seq{} ); };
  y.path[CCALLT] = []( void * o, Idx i, int t ) { return O::callTI( *static_cast< A const * >( o ), i, t, std::make_integer_sequence< int, NCOMBO >{} ); };
  y.path[CCHAIN] = []( void * o, Idx i, int ) { return O::chainDirect( *static_cast< A const * >( o ), i ); };
  y.path[MIXED] = []( void * o, Idx i, int ) { return O::mixed( *static_cast< A * >( o ), i ); };
  y.path[CMIXED] = []( void * o, Idx i, int ) { return O::mixed( *static_cast< A const * >( o ), i ); };
  y.path[RAW] = []( void * o, Idx i, int t ) -> void *
  {
    int lin = 0; for( int q = 0; q < R; ++q ) lin = lin * O::dims[q] + static_cast< int >( i[q] );
    return t % 2 ? vp( static_cast< A * >( o )->data()[lin] ) : vp( static_cast< A const * >( o )->data()[lin] );
  };
  if constexpr ( R >= 2 )
  {
    y.take[0] = &O::template takeInto< A, 1 >; y.take[1] = &O::template takeInto< A const, 1 >;
    y.path[SL1] = &O::template useSlice< A, 1 >; y.path[SL1C] = &O::template useSlice< A const, 1 >;
  }
  if constexpr ( R >= 3 )
  {
    y.take[2] = &O::template takeInto< A, 2 >; y.take[3] = &O::template takeInto< A const, 2 >;
    y.path[SL2] = &O::template useSlice< A, 2 >; y.path[SL2C] = &O::template useSlice< A const, 2 >;
  }
  return y;
}

std::vector< Ty > & tys();
void reg1(); void reg2(); void reg3(); void reg4(); void reg5(); void reg6(); void reg7();
inline void init() { if( tys().empty() ) { reg1(); reg2(); reg3(); reg4(); reg5(); reg6(); reg7(); } }
} // namespace arr
