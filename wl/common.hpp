// Reference models shared by the workloads: independent of the library, long double.
#pragma once
#include "sim.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <string>
#include <utility>
#include <array>
#include <vector>

namespace ref
{
using ld = long double;

enum Sp { EQ = 0, GL = 1, GLL = 2 };

inline ld legendre( int n, ld x, ld & d )
{
  ld p0 = 1, p1 = x;
  if( n == 0 ) { d = 0; return 1; }
  for( int k = 2; k <= n; ++k ) { ld p = ( ( 2 * k - 1 ) * x * p1 - ( k - 1 ) * p0 ) / k; p0 = p1; p1 = p; }
  d = n * ( x * p1 - p0 ) / ( x * x - 1 );
  return p1;
}

struct Tab { int n; ld x[12]; ld w[12]; };

inline Tab const & table( int sp, int N )
{
  static Tab t[3][12];
  static bool have[3][12];
  if( have[sp][N] ) return t[sp][N];
  Tab & r = t[sp][N];
  r.n = N;
  const ld pi = 3.14159265358979323846264338327950288L;
  if( sp == EQ )
    for( int i = 0; i < N; ++i ) { r.x[i] = -1 + ld( 2 ) * i / ( N - 1 ); r.w[i] = 0; }
  else if( sp == GL )
    for( int i = 0; i < N; ++i )
    {
      ld x = -std::cos( pi * ( i + ld( 0.75 ) ) / ( N + ld( 0.5 ) ) ), d = 0;
      for( int k = 0; k < 100; ++k ) { ld p = legendre( N, x, d ); ld dx = p / d; x -= dx; if( std::fabs( dx ) < 1e-19L ) break; }
      legendre( N, x, d );
      r.x[i] = x; r.w[i] = 2 / ( ( 1 - x * x ) * d * d );
    }
  else
    for( int i = 0; i < N; ++i )
    {
      int n = N - 1;
      ld x = -std::cos( pi * i / n ), d = 0;
      if( i == 0 ) x = -1;
      else if( i == n ) x = 1;
      else if( n % 2 == 0 && i == n / 2 ) x = 0;
      else
        for( int k = 0; k < 200; ++k )
        {
          ld p = legendre( n, x, d );
          ld dd = ( 2 * x * d - n * ( n + 1 ) * p ) / ( 1 - x * x );
          ld dx = d / dd; x -= dx; if( std::fabs( dx ) < 1e-19L ) break;
        }
      ld p;
      if( i == 0 || i == n ) p = ( i == 0 && n % 2 ) ? -1 : 1;
      else p = legendre( n, x, d );
      r.x[i] = x; r.w[i] = 2 / ( ld( n ) * ( n + 1 ) * p * p );
    }
  have[sp][N] = true;
  return r;
}

// value/derivative of the i-th Lagrange polynomial, with a magnitude bound for the rounding tolerance
inline ld lag( int sp, int N, int i, ld x, ld & mag )
{
  Tab const & t = table( sp, N );
  ld v = 1; mag = 1;
  for( int j = 0; j < N; ++j ) if( j != i )
  {
    ld den = t.x[i] - t.x[j];
    v *= ( x - t.x[j] ) / den;
    mag *= ( std::fabs( x ) + std::fabs( t.x[j] ) + ld( 0.05 ) ) / std::fabs( den );
  }
  return v;
}
inline ld dlag( int sp, int N, int i, ld x, ld & mag )
{
  Tab const & t = table( sp, N );
  ld v = 0; mag = 0;
  for( int k = 0; k < N; ++k ) if( k != i )
  {
    ld p = 1 / ( t.x[i] - t.x[k] ), m = std::fabs( p );
    for( int j = 0; j < N; ++j ) if( j != i && j != k )
    {
      ld den = t.x[i] - t.x[j];
      p *= ( x - t.x[j] ) / den;
      m *= ( std::fabs( x ) + std::fabs( t.x[j] ) + ld( 0.05 ) ) / std::fabs( den );
    }
    v += p; mag += m;
  }
  return v;
}

template< typename REAL > constexpr ld eps( int N ) { return sizeof( REAL ) == 4 ? ld( 3e-6 ) : ( N >= 6 ? ld( 4e-13 ) : ld( 4e-14 ) ); }

inline bool close( ld a, ld b, ld tol ) { return std::fabs( a - b ) <= tol; }   // false for NaN

// decoding of coordinates from plan arguments: plain numbers are in units of 1e-9; a support point, or a place next to one
constexpr int64_t NODE = 4000000000000000000ll, NEAR = 4100000000000000000ll, TINY = 4200000000000000000ll;
template< typename REAL >
REAL coordOf( int64_t a, int sp, int N )
{
  if( a >= TINY )      // next to zero, down to the smallest numbers there are, and zero itself with either sign
  {
    a -= TINY;
    REAL const v = a / 2 % 400 == 0 ? REAL( 0 ) : sizeof( REAL ) == 4 ? static_cast< REAL >( std::pow( ld( 10 ), -ld( a / 2 % 400 % 45 ) ) ) : static_cast< REAL >( std::pow( ld( 10 ), -ld( a / 2 % 400 % 324 ) ) );
    return a % 2 ? -v : v;
  }
  if( a >= NEAR )
  {
    a -= NEAR;
    ld d = ( a / 16 % 2 ? -1 : 1 ) * std::pow( ld( 10 ), -ld( 3 + a / 32 % 14 ) );
    REAL const c = static_cast< REAL >( table( sp, N ).x[a % 16 % N] );
    REAL const s = static_cast< REAL >( c + d );
    return s == c ? std::nextafter( c, static_cast< REAL >( d > 0 ? 4 : -4 ) ) : s;
  }
  if( a >= NODE ) return static_cast< REAL >( table( sp, N ).x[( a - NODE ) % N] );
  // far outside the element single precision would overflow
  if( sizeof( REAL ) == 4 && ( a > 30000000000ll || a < -30000000000ll ) ) return static_cast< REAL >( a * 3e-11 );
  return static_cast< REAL >( a * 1e-9 );
}
inline int64_t genCoord( sim::Rng & r )
{
  switch( r.below( 15 ) )
  {
    case 0: return r.chance( 500 ) ? 1000000000 : -1000000000;
    case 1: return 0;
    case 2: return NODE + r.below( 9 );
    case 3: return r.range( -3000000000ll, 3000000000ll );
    case 4: return r.range( -1000, 1000 );
    case 5: return NEAR + r.below( 16 * 2 * 14 );
    case 6: return r.range( -1000000000000ll, 1000000000000ll );
    case 7: return TINY + ( r.chance( 150 ) ? r.below( 2 ) : r.chance( 300 ) ? 2 * r.range( 300, 323 ) + r.below( 2 ) : r.below( 800 ) );
    default: return r.range( -1000000000, 1000000000 );
  }
}

// fills memory with garbage derived from the plan seed
inline void junk( void * p, size_t n, uint64_t seed )
{
  unsigned char * q = static_cast< unsigned char * >( p );
  for( size_t i = 0; i < n; ++i ) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; q[i] = static_cast< unsigned char >( seed >> 40 ); }
}
} // namespace ref

// type tags used by the workloads
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
namespace wl
{
template< int SP > struct SpOf;
template<> struct SpOf< ref::EQ > { template< typename R, int N > using type = shiva::EqualSpacing< R, N >; };
template<> struct SpOf< ref::GL > { template< typename R, int N > using type = shiva::GaussLegendreSpacing< R, N >; };
template<> struct SpOf< ref::GLL > { template< typename R, int N > using type = shiva::GaussLobattoSpacing< R, N >; };

// a basis with its reference description
template< typename REAL, int ORDER, int SP >
struct B
{
  using Real = REAL;
  static constexpr int N = ORDER + 1;
  static constexpr int sp = SP;
};
template< typename REAL, int ORDER > struct B1 {};

template< typename T > struct LagOf;
template< typename REAL, int ORDER > struct LagOf< B< REAL, ORDER, ref::EQ > > { using type = shiva::functions::LagrangeBasis< REAL, ORDER, shiva::EqualSpacing >; };
template< typename REAL, int ORDER > struct LagOf< B< REAL, ORDER, ref::GL > > { using type = shiva::functions::LagrangeBasis< REAL, ORDER, shiva::GaussLegendreSpacing >; };
template< typename REAL, int ORDER > struct LagOf< B< REAL, ORDER, ref::GLL > > { using type = shiva::functions::LagrangeBasis< REAL, ORDER, shiva::GaussLobattoSpacing >; };
} // namespace wl
