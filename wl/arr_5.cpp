#include "arr.hpp"
namespace arr
{
// large enough for linear indices beyond 16 bits
void reg5()
{
  auto & t = tys();
  t.push_back( make< int8_t, 0, 190, 190 >( "int8" ) ); t.push_back( make< int8_t, 1, 190, 190 >( "int8" ) );
  t.push_back( make< int16_t, 1, 3, 200, 120 >( "int16" ) ); t.push_back( make< int16_t, 0, 3, 200, 120 >( "int16" ) );
  t.push_back( make< int8_t, 0, 70000 >( "int8" ) );
}
}
