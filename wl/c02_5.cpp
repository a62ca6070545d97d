#include "c02.hpp"
namespace c02
{
using namespace ref;
void reg5()
{
  using D1 = wl::B< double, 1, EQ >; using D2 = wl::B< double, 2, EQ >;
  regLinear< double, wl::B< double, 3, GLL >, D2, D1 >( "linear-d-gll3-eq21" );
}
}
