#include "arr.hpp"
namespace arr
{
void reg2()
{
  auto & t = tys();
  t.push_back( make< float, 0, 4, 3 >( "float" ) ); t.push_back( make< float, 1, 4, 3 >( "float" ) ); t.push_back( make< float, 2, 4, 3 >( "float" ) );
  t.push_back( make< int16_t, 0, 1, 6 >( "int16" ) ); t.push_back( make< int16_t, 1, 5, 1 >( "int16" ) );
  t.push_back( make< int8_t, 0, 7 >( "int8" ) ); t.push_back( make< int8_t, 1, 7 >( "int8" ) ); t.push_back( make< int8_t, 2, 7 >( "int8" ) );
}
}
