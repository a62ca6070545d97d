#pragma once
#include "common.hpp"
#include "shiva/common/CArray.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"

namespace c01
{
using ref::ld;

struct Ev
{
  char name[96];
  int dims, nout;
  size_t real;
  int sp[4], N[4], idx[4];
  void ( *fn )( const void * in, void * out );
  void ( *rf )( Ev const & e, const ld * x, ld * out, ld * tol );
  ld eps;
};
std::vector< Ev > & evs();

inline void refProduct( Ev const & e, const ld * x, ld * out, ld * tol )
{
  ld v[4], vm[4], d[4], dm[4];
  for( int k = 0; k < e.dims; ++k ) { v[k] = ref::lag( e.sp[k], e.N[k], e.idx[k], x[k], vm[k] ); d[k] = ref::dlag( e.sp[k], e.N[k], e.idx[k], x[k], dm[k] ); }
  ld p = 1, m = 1;
  for( int k = 0; k < e.dims; ++k ) { p *= v[k]; m *= vm[k]; }
  out[0] = p; tol[0] = e.eps * m;
  for( int c = 0; c < e.dims; ++c )
  {
    ld g = 1, gm = 1;
    for( int k = 0; k < e.dims; ++k ) { g *= k == c ? d[k] : v[k]; gm *= k == c ? dm[k] : vm[k]; }
    out[1 + c] = g; tol[1 + c] = e.eps * gm;
  }
}

template< typename REAL, int D, int API, typename ... BS > struct Api;
template< typename REAL, int D, typename ... BS > struct Api< REAL, D, 1, BS... > { using type = shiva::functions::BasisProduct< REAL, typename wl::LagOf< BS >::type... >; };
template< typename REAL, int D, typename ... BS > struct Api< REAL, D, 2, BS... > { using type = shiva::discretizations::finiteElementMethod::ParentElement< REAL, shiva::geometry::NCube< REAL, D, -1, 1, 1 >, typename wl::LagOf< BS >::type... >; };
template< typename REAL, int D, typename ... BS > struct Api< REAL, D, 3, BS... > { using type = shiva::geometry::InterpolatedShape< REAL, shiva::geometry::NCube< REAL, D, -1, 1, 1 >, typename wl::LagOf< BS >::type... >; };

template< typename T, typename REAL, int D, int CT, int ... I >
void evalProduct( const void * in, void * out )
{
  REAL * o = static_cast< REAL * >( out );
  if constexpr ( CT == 0 )
  {
    REAL const ( &x )[D] = *static_cast< REAL const ( * )[D] >( in );
    o[0] = T::template value< I... >( x );
    auto const g = T::template gradient< I... >( x );
    for( int k = 0; k < D; ++k ) o[1 + k] = g( k );
  }
  else if constexpr ( CT == 1 )
  {
    auto const & x = *static_cast< shiva::CArrayNd< REAL, D > const * >( in );
    auto const g = T::template gradient< I... >( x );
    for( int k = 0; k < D; ++k ) o[1 + k] = g[k];
    o[0] = T::template value< I... >( x );
  }
  else
  {
    auto const & x = *static_cast< std::array< REAL, D > const * >( in );
    o[0] = T::template value< I... >( x );
    auto const g = T::template gradient< I... >( x );
    for( int k = 0; k < D; ++k ) o[1 + k] = g( k );
  }
}

constexpr int prodOf( std::initializer_list< int > l ) { int p = 1; for( int v : l ) p *= v; return p; }

template< typename ... BS >
struct Combo
{
  static constexpr int D = sizeof...( BS );
  static constexpr int Ns[D] = { BS::N... };
  static constexpr int total = ( BS::N * ... );
  static constexpr int digit( int k, int d )
  {
    int f = total <= 12 ? k : static_cast< int >( ( static_cast< long >( k ) * 37 + 5 + k / 3 ) % total );
    if( k == 0 ) f = 0;
    if( k == 1 ) f = total - 1;
    for( int i = 0; i < d; ++i ) f /= Ns[i];
    return f % Ns[d];
  }
};

template< typename REAL, int API, int CT, int K, typename SEQ, typename ... BS > struct RegOne;
template< typename REAL, int API, int CT, int K, int ... DIM, typename ... BS >
struct RegOne< REAL, API, CT, K, std::integer_sequence< int, DIM... >, BS... >
{
  static void go()
  {
    using C = Combo< BS... >;
    constexpr int D = C::D;
    using T = typename Api< REAL, D, API, BS... >::type;
    Ev e{};
    e.dims = D; e.nout = 1 + D; e.real = sizeof( REAL );
    int sp[] = { BS::sp... }, N[] = { BS::N... }, ix[] = { C::digit( K, DIM )... };
    int mx = 0;
    for( int k = 0; k < D; ++k ) { e.sp[k] = sp[k]; e.N[k] = N[k]; e.idx[k] = ix[k]; if( N[k] > mx ) mx = N[k]; }
    e.eps = ref::eps< REAL >( mx );
    static const char * an[] = { "basis", "product", "element", "shape" };
    static const char * sn[] = { "eq", "gl", "gll" };
    int k = std::snprintf( e.name, sizeof e.name, "%s-%s-", an[API], sizeof( REAL ) == 4 ? "f" : "d" );
    for( int d = 0; d < D; ++d ) k += std::snprintf( e.name + k, sizeof e.name - static_cast< size_t >( k ), "%s%d[%d]", sn[sp[d]], N[d] - 1, ix[d] );
    e.fn = &evalProduct< T, REAL, D, CT, C::digit( K, DIM )... >;
    e.rf = &refProduct;
    evs().push_back( e );
  }
};

template< typename REAL, int API, int CT, int LIMIT, typename ... BS >
struct Reg
{
  template< int ... K >
  static void all( std::integer_sequence< int, K... > )
  {
    ( RegOne< REAL, API, CT, K, std::make_integer_sequence< int, static_cast< int >( sizeof...( BS ) ) >, BS... >::go(), ... );
  }
  static void go()
  {
    constexpr int total = Combo< BS... >::total;
    all( std::make_integer_sequence< int, ( total < LIMIT ? total : LIMIT ) >{} );
  }
};

// one-dimensional bases
template< typename T, typename REAL, int I >
void evalBasis( const void * in, void * out )
{
  REAL const & x = *static_cast< REAL const * >( in );
  REAL * o = static_cast< REAL * >( out );
  o[0] = T::template value< I >( x );
  o[1] = T::template gradient< I >( x );
}
template< typename REAL, int ORDER, int SP, int ... I >
void regBasisImpl( std::integer_sequence< int, I... > )
{
  using T = typename wl::LagOf< wl::B< REAL, ORDER, SP > >::type;
  static const char * sn[] = { "eq", "gl", "gll" };
  auto one = [&]( int i, void ( *fn )( const void *, void * ) )
  {
    Ev e{};
    e.dims = 1; e.nout = 2; e.real = sizeof( REAL ); e.sp[0] = SP; e.N[0] = ORDER + 1; e.idx[0] = i; e.eps = ref::eps< REAL >( ORDER + 1 );
    std::snprintf( e.name, sizeof e.name, "basis-%s-%s%d[%d]", sizeof( REAL ) == 4 ? "f" : "d", sn[SP], ORDER, i );
    e.fn = fn; e.rf = &refProduct;
    evs().push_back( e );
  };
  ( one( I, &evalBasis< T, REAL, I > ), ... );
}
template< typename REAL, int ORDER, int SP > void regBasis() { regBasisImpl< REAL, ORDER, SP >( std::make_integer_sequence< int, ORDER + 1 >{} ); }

// tables: runtime and compile-time coordinates and weights
template< typename T, typename REAL, int N, int MODE, int ... I >
void evalTable( REAL * o, std::integer_sequence< int, I... > )
{
  // MODE bits: 1 runtime coordinate, 2 compile-time coordinate, 4 runtime weight, 8 compile-time weight
  if constexpr ( MODE & 1 ) { for( int i = 0; i < N; ++i ) *o++ = T::coordinate( i ); }
  if constexpr ( MODE & 2 ) { ( ( *o++ = T::template coordinate< I >() ), ... ); }
  if constexpr ( MODE & 4 ) { for( int i = 0; i < N; ++i ) *o++ = T::weight( i ); }
  if constexpr ( MODE & 8 ) { ( ( *o++ = T::template weight< I >() ), ... ); }
}
template< typename T, typename REAL, int N, int MODE >
void evalTableFn( const void *, void * out ) { evalTable< T, REAL, N, MODE >( static_cast< REAL * >( out ), std::make_integer_sequence< int, N >{} ); }

inline void refTable( Ev const & e, const ld *, ld * out, ld * tol )
{
  ref::Tab const & t = ref::table( e.sp[0], e.N[0] );
  int mode = e.idx[0], k = 0;
  for( int b = 1; b <= 8; b *= 2 ) if( mode & b )
    for( int i = 0; i < e.N[0]; ++i )
    {
      out[k] = b <= 2 ? t.x[i] : t.w[i];
      tol[k] = e.real == 4 ? ld( 2.5e-7 ) : ( e.sp[0] == ref::EQ || e.N[0] <= 5 ? ld( 1e-15 ) : ld( 2e-14 ) );
      ++k;
    }
}
template< typename T, typename REAL, int SP, int N, int MODE >
void regTable()
{
  Ev e{};
  static const char * sn[] = { "eq", "gl", "gll" };
  e.dims = 1; e.real = sizeof( REAL ); e.sp[0] = SP; e.N[0] = N; e.idx[0] = MODE;
  e.nout = 0;
  for( int b = 1; b <= 8; b *= 2 ) if( MODE & b ) e.nout += N;
  std::snprintf( e.name, sizeof e.name, "table-%s-%s%d", sizeof( REAL ) == 4 ? "f" : "d", sn[SP], N );
  e.fn = &evalTableFn< T, REAL, N, MODE >; e.rf = &refTable;
  evs().push_back( e );
}

void reg1(); void reg2(); void reg3(); void reg4(); void reg5(); void reg6(); void reg7();
} // namespace c01
