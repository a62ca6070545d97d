#include "arr.hpp"
namespace arr
{
// single dimensions beyond 8 and 16 bits
void reg7()
{
  auto & t = tys();
  t.push_back( make< int8_t, 0, 300, 2 >( "int8" ) ); t.push_back( make< int8_t, 1, 300, 2 >( "int8" ) );
  t.push_back( make< int16_t, 1, 2, 300, 3 >( "int16" ) ); t.push_back( make< float, 0, 3, 2, 400 >( "float" ) );
  t.push_back( make< int8_t, 0, 66000, 2 >( "int8" ) );
}
}
