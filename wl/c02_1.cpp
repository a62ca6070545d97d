#include "c02.hpp"
namespace c02
{
using namespace ref;
void reg1()
{
  regUniform< double >( "uniform-d" ); regUniform< float >( "uniform-f" );
  regScaling< double >( "scaling-d" ); regScaling< float >( "scaling-f" );
  using F1 = wl::B< float, 1, EQ >;
  regLinear< float, F1, F1, F1 >( "linear-f-eq1" );
}
}
