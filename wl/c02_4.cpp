#include "c02.hpp"
namespace c02
{
using namespace ref;
void reg4()
{
  using D1 = wl::B< double, 1, EQ >; using D2 = wl::B< double, 2, EQ >;
  regLinear< double, D2, D2, D2 >( "linear-d-eq2" );
}
}
