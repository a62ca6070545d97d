#include "c02.hpp"
namespace c02
{
using namespace ref;
void reg3()
{
  using D1 = wl::B< double, 1, EQ >; using D2 = wl::B< double, 2, EQ >;
  using G1 = wl::B< double, 1, GL >; using G2 = wl::B< double, 2, GLL >;
  regLinear< double, D1, G2, D1 >( "linear-d-eq1-gll2" );
  regLinear< double, G1, G1, G1 >( "linear-d-gl1" );
}
}
