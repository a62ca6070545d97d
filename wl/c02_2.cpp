#include "c02.hpp"
namespace c02
{
using namespace ref;
void reg2()
{
  using D1 = wl::B< double, 1, EQ >; using D2 = wl::B< double, 2, EQ >;
  regLinear< double, D1, D1, D1 >( "linear-d-eq1" );
  regLinear< double, D2, D1, D1 >( "linear-d-eq211" );
}
}
