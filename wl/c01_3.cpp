#include "c01.hpp"
namespace c01
{
template< typename REAL >
static void tables()
{
  regTable< shiva::EqualSpacing< REAL, 2 >, REAL, ref::EQ, 2, 3 >(); regTable< shiva::EqualSpacing< REAL, 3 >, REAL, ref::EQ, 3, 3 >(); regTable< shiva::EqualSpacing< REAL, 4 >, REAL, ref::EQ, 4, 3 >();
  regTable< shiva::EqualSpacing< REAL, 5 >, REAL, ref::EQ, 5, 3 >(); regTable< shiva::EqualSpacing< REAL, 6 >, REAL, ref::EQ, 6, 3 >(); regTable< shiva::EqualSpacing< REAL, 9 >, REAL, ref::EQ, 9, 3 >();
  regTable< shiva::QuadratureGaussLegendre< REAL, 2 >, REAL, ref::GL, 2, 15 >(); regTable< shiva::QuadratureGaussLegendre< REAL, 3 >, REAL, ref::GL, 3, 15 >(); regTable< shiva::QuadratureGaussLegendre< REAL, 4 >, REAL, ref::GL, 4, 15 >();
  regTable< shiva::QuadratureGaussLobatto< REAL, 2 >, REAL, ref::GLL, 2, 15 >(); regTable< shiva::QuadratureGaussLobatto< REAL, 3 >, REAL, ref::GLL, 3, 15 >(); regTable< shiva::QuadratureGaussLobatto< REAL, 4 >, REAL, ref::GLL, 4, 15 >(); regTable< shiva::QuadratureGaussLobatto< REAL, 5 >, REAL, ref::GLL, 5, 15 >();
  regTable< shiva::QuadratureGaussLobatto< REAL, 6 >, REAL, ref::GLL, 6, 11 >(); regTable< shiva::QuadratureGaussLobatto< REAL, 7 >, REAL, ref::GLL, 7, 11 >(); regTable< shiva::QuadratureGaussLobatto< REAL, 8 >, REAL, ref::GLL, 8, 11 >(); regTable< shiva::QuadratureGaussLobatto< REAL, 9 >, REAL, ref::GLL, 9, 11 >();
}
void reg3()
{
  tables< double >(); tables< float >();
  using namespace wl;
  // one- and two-dimensional products through each interface
  Reg< double, 1, 0, 4, B< double, 3, ref::GLL > >::go();
  Reg< double, 2, 1, 4, B< double, 2, ref::EQ > >::go();
  Reg< double, 1, 1, 12, B< double, 1, ref::GLL >, B< double, 2, ref::GLL > >::go();
  Reg< double, 2, 0, 12, B< double, 3, ref::EQ >, B< double, 1, ref::GL > >::go();
  Reg< double, 3, 2, 12, B< double, 2, ref::GL >, B< double, 3, ref::GLL > >::go();
  Reg< float, 2, 2, 9, B< float, 2, ref::GLL >, B< float, 2, ref::GLL > >::go();
  Reg< float, 3, 0, 6, B< float, 1, ref::EQ >, B< float, 4, ref::EQ > >::go();
}
}
