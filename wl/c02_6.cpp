#include "c02.hpp"
namespace c02
{
using namespace ref;
void reg6()
{
  using F1 = wl::B< float, 1, EQ >; using F2 = wl::B< float, 2, EQ >; using FG = wl::B< float, 2, GL >;
  regLinear< float, F1, F1, F2 >( "linear-f-eq112" );
  regLinear< float, F1, FG, F1 >( "linear-f-gl2" );
}
}
