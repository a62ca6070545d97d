// C02 (shared part): histories of editing, copying and re-creating cells, with concurrent and interrupting readers.
#pragma once
#include "common.hpp"
#include "shiva/common/CArray.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include <new>

namespace shiva { namespace mathUtilities {} }
// chosen only if there is no such function (it is a helper of the library that its own tests do not use)
struct NoInverse {};
NoInverse inverse( ... );
namespace c02
{
template< typename R, typename M > bool matrixInverse( M & m, R & d )
{
  using namespace shiva::mathUtilities;
  if constexpr ( std::is_same_v< decltype( inverse( m, d ) ), NoInverse > ) return false;
  else { inverse( m, d ); return true; }
}
using ref::ld;
using namespace shiva::geometry;

enum { SET, OWN, EDIT, HELD, COPY, ASSIGN, RECREATE, SELF, SWAP, JAC, JACV, JACQ, INV, INVV, INVA, INVW, READ, NKIND };
inline const char * const kindNames[] = { "set-data", "set-own-data", "edit-in-place", "edit-through-held-reference", "copy-construct", "assign", "re-create", "self-assign", "swap",
                                    "jacobian", "jacobian-by-value", "jacobian-quadrature", "inverse", "inverse-by-value", "inverse-of-array", "inverse-of-view", "read-data" };
inline bool isRead( int k ) { return k >= JAC; }

constexpr int MAXDATA = 128;
struct Ty
{
  const char * name;
  size_t size, real;
  int ndata, shape;                                     // shape: 0 uniform, 1 scaling, 2 linear
  int N[4], sp[4];
  int dim;                                              // of a linear one
  int nq;
  void ( *create )( void * );
  void ( *destroy )( void * );
  void ( *copy )( void * dst, const void * src );
  void ( *assign )( void * dst, const void * src );
  void ( *swp )( void * a, void * b );
  void ( *set )( void *, const ld * v );
  void ( *setFrom )( void *, const void * other );      // sets the data to what another cell (or the cell itself) holds
  void ( *edit )( void *, int slot, ld v );
  void * ( *held )( void * );                           // address of the data, as handed out by the accessor
  void ( *heldEdit )( void *, int slot, ld v );
  ld ( *get )( const void *, int slot );
  void ( *jac )( const void *, const void * x, void * J );
  void ( *jacv )( const void *, const void * x, void * J );
  void ( *jacq[8] )( const void *, void * J );
  ld qx[8][3];
  void ( *inv )( const void *, const void * x, void * J, void * det );
  void ( *invv )( const void *, const void * x, void * J, void * det );
  void ( *inva )( const void *, const void * x, void * J, void * det );      // Jacobian, then the matrix inverse of a plain array
  void ( *invw )( const void *, const void * x, void * J, void * det );      // the same of a view
};
inline std::vector< Ty > & tys() { static std::vector< Ty > v; return v; }

template< typename T > void create_( void * p ) { new( p ) T; }
template< typename T > void destroy_( void * p ) { static_cast< T * >( p )->~T(); }
template< typename T > void copy_( void * d, const void * s ) { new( d ) T( *static_cast< const T * >( s ) ); }
template< typename T > void assign_( void * d, const void * s ) { *static_cast< T * >( d ) = *static_cast< const T * >( s ); }
template< typename T > void swap_( void * a, void * b ) { std::swap( *static_cast< T * >( a ), *static_cast< T * >( b ) ); }
template< typename T > void common_( Ty & y )
{
  y.size = sizeof( T ); y.real = sizeof( typename T::RealType );
  y.create = &create_< T >; y.destroy = &destroy_< T >; y.copy = &copy_< T >; y.assign = &assign_< T >; y.swp = &swap_< T >;
}

template< typename R > void regUniform( const char * name )
{
  using T = UniformScaling< R >;
  Ty y{}; common_< T >( y ); y.name = name; y.ndata = 1; y.shape = 0;
  y.set = []( void * p, const ld * v ) { static_cast< T * >( p )->setData( static_cast< R >( v[0] ) ); };
  y.setFrom = []( void * p, const void * q ) { static_cast< T * >( p )->setData( static_cast< const T * >( q )->getData() ); };
  y.edit = []( void * p, int, ld v ) { static_cast< T * >( p )->setData() = static_cast< R >( v ); };
  y.held = []( void * p ) -> void * { return &static_cast< T * >( p )->setData(); };
  y.heldEdit = []( void * h, int, ld v ) { *static_cast< R * >( h ) = static_cast< R >( v ); };
  y.get = []( const void * p, int ) { return static_cast< ld >( static_cast< const T * >( p )->getData() ); };
  y.jac = []( const void * p, const void *, void * J ) { utilities::jacobian( *static_cast< const T * >( p ), *static_cast< typename T::JacobianType * >( J ) ); };
  y.jacv = []( const void * p, const void *, void * J ) { auto const r = utilities::jacobian( *static_cast< const T * >( p ) ); *static_cast< R * >( J ) = r( 0 ); };
  y.inv = []( const void * p, const void *, void * J, void * d ) { utilities::inverseJacobian( *static_cast< const T * >( p ), *static_cast< typename T::JacobianType * >( J ), *static_cast< R * >( d ) ); };
  y.invv = []( const void * p, const void *, void * J, void * d ) { auto const r = utilities::inverseJacobian( *static_cast< const T * >( p ) ); *static_cast< R * >( d ) = std::get< 0 >( r ); *static_cast< R * >( J ) = std::get< 1 >( r )( 0 ); };
  y.inva = y.invw = y.inv;
  tys().push_back( y );
}
template< typename R > void regScaling( const char * name )
{
  using T = Scaling< R >;
  Ty y{}; common_< T >( y ); y.name = name; y.ndata = 3; y.shape = 1;
  y.set = []( void * p, const ld * v ) { R h[3] = { static_cast< R >( v[0] ), static_cast< R >( v[1] ), static_cast< R >( v[2] ) }; static_cast< T * >( p )->setData( h ); };
  y.setFrom = []( void * p, const void * q ) { static_cast< T * >( p )->setData( static_cast< const T * >( q )->getData() ); };
  y.edit = []( void * p, int i, ld v ) { static_cast< T * >( p )->setData()[i] = static_cast< R >( v ); };
  y.held = []( void * p ) -> void * { return &static_cast< T * >( p )->setData(); };
  y.heldEdit = []( void * h, int i, ld v ) { ( *static_cast< R ( * )[3] >( h ) )[i] = static_cast< R >( v ); };
  y.get = []( const void * p, int i ) { return static_cast< ld >( static_cast< const T * >( p )->getData()[i] ); };
  y.jac = []( const void * p, const void *, void * J ) { utilities::jacobian( *static_cast< const T * >( p ), *static_cast< typename T::JacobianType * >( J ) ); };
  y.jacv = []( const void * p, const void *, void * J ) { auto const r = utilities::jacobian( *static_cast< const T * >( p ) ); for( int i = 0; i < 3; ++i ) static_cast< R * >( J )[i] = r( i ); };
  y.inv = []( const void * p, const void *, void * J, void * d ) { utilities::inverseJacobian( *static_cast< const T * >( p ), *static_cast< typename T::JacobianType * >( J ), *static_cast< R * >( d ) ); };
  y.invv = []( const void * p, const void *, void * J, void * d ) { auto const r = utilities::inverseJacobian( *static_cast< const T * >( p ) ); *static_cast< R * >( d ) = std::get< 0 >( r ); for( int i = 0; i < 3; ++i ) static_cast< R * >( J )[i] = std::get< 1 >( r )( i ); };
  y.inva = y.invw = y.inv;
  tys().push_back( y );
}

template< typename T, typename Q, int A, int B, int C > void jacq_( const void * p, void * J )
{
  utilities::jacobian< Q, A, B, C >( *static_cast< const T * >( p ), *static_cast< typename T::JacobianType * >( J ) );
}

template< typename R, typename BA, typename BB, typename BC >
void regLinear( const char * name )
{
  using T = LinearTransform< R, InterpolatedShape< R, NCube< R, 3, -1, 1, 1 >, typename wl::LagOf< BA >::type, typename wl::LagOf< BB >::type, typename wl::LagOf< BC >::type > >;
  constexpr int NA = BA::N, NB = BB::N, NC = BC::N;
  Ty y{}; common_< T >( y ); y.name = name; y.ndata = NA * NB * NC * 3; y.shape = 2;
  int n[] = { NA, NB, NC }, s[] = { BA::sp, BB::sp, BC::sp };
  y.dim = 3;
  for( int i = 0; i < 3; ++i ) { y.N[i] = n[i]; y.sp[i] = s[i]; }
  // reference data are ordered by support point (a,b,c) and component
  y.set = []( void * p, const ld * v )
  {
    T & t = *static_cast< T * >( p );
    // corners and the other support points are numbered with the first direction running fastest
    R c[NA * NB * NC][3];
    for( int a = 0; a < NA; ++a ) for( int b = 0; b < NB; ++b ) for( int k = 0; k < NC; ++k ) for( int i = 0; i < 3; ++i ) c[a + NA * ( b + NB * k )][i] = static_cast< R >( v[( ( a * NB + b ) * NC + k ) * 3 + i] );
    t.setData( c );
  };
  y.setFrom = []( void * p, const void * q )
  {
    auto const & g = static_cast< const T * >( q )->getData();
    shiva::CArrayNd< R, NA * NB * NC, 3 > c;
    for( int a = 0; a < NA; ++a ) for( int b = 0; b < NB; ++b ) for( int k = 0; k < NC; ++k ) for( int i = 0; i < 3; ++i ) c( a + NA * ( b + NB * k ), i ) = g( a, b, k, i );
    static_cast< T * >( p )->setData( c );
  };
  y.edit = []( void * p, int q, ld v ) { static_cast< T * >( p )->getData()( q / 3 / NC / NB, q / 3 / NC % NB, q / 3 % NC, q % 3 ) = static_cast< R >( v ); };
  y.held = []( void * p ) -> void * { return &static_cast< T * >( p )->getData(); };
  y.heldEdit = []( void * h, int q, ld v ) { ( *static_cast< typename T::DataType * >( h ) )( q / 3 / NC / NB, q / 3 / NC % NB, q / 3 % NC, q % 3 ) = static_cast< R >( v ); };
  y.get = []( const void * p, int q ) { return static_cast< ld >( static_cast< const T * >( p )->getData()( q / 3 / NC / NB, q / 3 / NC % NB, q / 3 % NC, q % 3 ) ); };
  // points come in plain arrays, in the library's arrays and in others
  y.jac = []( const void * p, const void * x, void * J ) { utilities::jacobian( *static_cast< const T * >( p ), *static_cast< shiva::CArrayNd< R, 3 > const * >( x ), *static_cast< typename T::JacobianType * >( J ) ); };
  y.jacv = []( const void * p, const void * x, void * J ) { auto const r = utilities::jacobian( *static_cast< const T * >( p ), *static_cast< R const ( * )[3] >( x ) ); for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) static_cast< R * >( J )[3 * i + j] = r( i, j ); };
  y.inv = []( const void * p, const void * x, void * J, void * d ) { utilities::inverseJacobian( *static_cast< const T * >( p ), *static_cast< std::array< R, 3 > const * >( x ), *static_cast< typename T::JacobianType * >( J ), *static_cast< R * >( d ) ); };
  y.invv = []( const void * p, const void * x, void * J, void * d )
  {
    auto const r = utilities::inverseJacobian( *static_cast< const T * >( p ), *static_cast< R const ( * )[3] >( x ) );
    *static_cast< R * >( d ) = std::get< 0 >( r );
    for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) static_cast< R * >( J )[3 * i + j] = std::get< 1 >( r )( i, j );
  };
  y.inva = []( const void * p, const void * x, void * J, void * d )
  {
    auto const r = utilities::jacobian( *static_cast< const T * >( p ), *static_cast< R const ( * )[3] >( x ) );
    R ( &m )[3][3] = *static_cast< R ( * )[3][3] >( J );
    for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) m[i][j] = r( i, j );
    if( !matrixInverse( m, *static_cast< R * >( d ) ) ) utilities::inverseJacobian( *static_cast< const T * >( p ), *static_cast< R const ( * )[3] >( x ), *static_cast< typename T::JacobianType * >( J ), *static_cast< R * >( d ) );
  };
  y.invw = []( const void * p, const void * x, void * J, void * d )
  {
    auto const r = utilities::jacobian( *static_cast< const T * >( p ), *static_cast< R const ( * )[3] >( x ) );
    for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) static_cast< R * >( J )[3 * i + j] = r( i, j );
    shiva::CArrayViewNd< R, 3, 3 > m( static_cast< R * >( J ) );
    if( !matrixInverse( m, *static_cast< R * >( d ) ) ) utilities::inverseJacobian( *static_cast< const T * >( p ), *static_cast< R const ( * )[3] >( x ), *static_cast< typename T::JacobianType * >( J ), *static_cast< R * >( d ) );
  };
  using Q2 = shiva::QuadratureGaussLegendre< R, 2 >;
  using Q3 = shiva::QuadratureGaussLegendre< R, 3 >;
  using L3 = shiva::QuadratureGaussLobatto< R, 3 >;
  auto q = [&]( int sp, int N, int a, int b, int c, void ( *f )( const void *, void * ) )
  {
    y.jacq[y.nq] = f;
    int ix[] = { a, b, c };
    for( int d = 0; d < 3; ++d ) y.qx[y.nq][d] = ref::table( sp, N ).x[ix[d]];
    ++y.nq;
  };
  q( ref::GL, 2, 0, 0, 0, &jacq_< T, Q2, 0, 0, 0 > );
  q( ref::GL, 2, 1, 0, 1, &jacq_< T, Q2, 1, 0, 1 > );
  q( ref::GL, 3, 0, 1, 2, &jacq_< T, Q3, 0, 1, 2 > );
  q( ref::GLL, 3, 2, 1, 0, &jacq_< T, L3, 2, 1, 0 > );
  tys().push_back( y );
}

template< typename T, typename Q, int ... A > void jacqd_( const void * p, void * J )
{
  utilities::jacobian< Q, A ... >( *static_cast< const T * >( p ), *static_cast< typename T::JacobianType * >( J ) );
}
// cells of another number of dimensions: their data are written in place, and there is no inverse
template< typename R, typename ... BS >
void regDims( const char * name )
{
  constexpr int D = sizeof...( BS );
  using T = LinearTransform< R, InterpolatedShape< R, NCube< R, D, -1, 1, 1 >, typename wl::LagOf< BS >::type... > >;
  Ty y{}; common_< T >( y ); y.name = name; y.ndata = ( BS::N * ... ) * D; y.shape = 2; y.dim = D;
  int n[] = { BS::N ... }, s[] = { BS::sp ... };
  for( int i = 0; i < D; ++i ) { y.N[i] = n[i]; y.sp[i] = s[i]; }
  static constexpr int ND = ( BS::N * ... ) * D;
  y.set = []( void * p, const ld * v ) { for( int q = 0; q < ND; ++q ) static_cast< T * >( p )->getData().data()[q] = static_cast< R >( v[q] ); };
  y.setFrom = []( void * p, const void * q ) { static_cast< T * >( p )->getData() = static_cast< const T * >( q )->getData(); };
  y.edit = []( void * p, int q, ld v ) { static_cast< T * >( p )->getData().data()[q] = static_cast< R >( v ); };
  y.held = []( void * p ) -> void * { return &static_cast< T * >( p )->getData(); };
  y.heldEdit = []( void * h, int q, ld v ) { static_cast< typename T::DataType * >( h )->data()[q] = static_cast< R >( v ); };
  y.get = []( const void * p, int q ) { return static_cast< ld >( static_cast< const T * >( p )->getData().data()[q] ); };
  y.jac = []( const void * p, const void * x, void * J ) { utilities::jacobian( *static_cast< const T * >( p ), *static_cast< shiva::CArrayNd< R, D > const * >( x ), *static_cast< typename T::JacobianType * >( J ) ); };
  y.jacv = []( const void * p, const void * x, void * J ) { utilities::jacobian( *static_cast< const T * >( p ), *static_cast< R const ( * )[D] >( x ), *static_cast< typename T::JacobianType * >( J ) ); };
  using Q2 = shiva::QuadratureGaussLegendre< R, 2 >;
  using L3 = shiva::QuadratureGaussLobatto< R, 3 >;
  auto q = [&]( int sp, int N, int a, int b, int c, void ( *f )( const void *, void * ) )
  {
    y.jacq[y.nq] = f;
    int ix[] = { a, b, c };
    for( int d = 0; d < 3; ++d ) y.qx[y.nq][d] = ref::table( sp, N ).x[ix[d]];
    ++y.nq;
  };
  if constexpr ( D == 1 ) { q( ref::GL, 2, 1, 0, 0, &jacqd_< T, Q2, 1 > ); q( ref::GLL, 3, 0, 0, 0, &jacqd_< T, L3, 0 > ); }
  if constexpr ( D == 2 ) { q( ref::GL, 2, 1, 0, 0, &jacqd_< T, Q2, 1, 0 > ); q( ref::GLL, 3, 0, 2, 0, &jacqd_< T, L3, 0, 2 > ); }
  tys().push_back( y );
}
}
