#include "c02.hpp"
namespace c02
{
using namespace ref;
void reg7()
{
  using D1 = wl::B< double, 1, EQ >; using D2 = wl::B< double, 2, EQ >; using D3 = wl::B< double, 3, GLL >; using DG = wl::B< double, 2, GL >;
  using F1 = wl::B< float, 1, EQ >; using F2 = wl::B< float, 2, GLL >;
  regDims< double, D1, D1 >( "linear-2d-eq1" );
  regDims< double, D2, D3 >( "linear-2d-eq2-gll3" );
  regDims< float, F1, F2 >( "linear-2d-f" );
  regDims< double, D1 >( "linear-1d-eq1" );
  regDims< double, D3 >( "linear-1d-gll3" );
  regDims< float, F2 >( "linear-1d-f" );
  regDims< double, DG, D1 >( "linear-2d-gl2" );
  regDims< double, D1, D1, D1, D1 >( "linear-4d" );
  regDims< double, D1, D2, D1, D1 >( "linear-4d-eq1211" );
}
}
