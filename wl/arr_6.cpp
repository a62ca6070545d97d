#include "arr.hpp"
namespace arr
{
// high ranks
void reg6()
{
  auto & t = tys();
  t.push_back( make< int8_t, 0, 2, 2, 2, 2, 2, 2 >( "int8" ) ); t.push_back( make< int8_t, 1, 2, 2, 2, 2, 2, 2 >( "int8" ) );
  t.push_back( make< int, 0, 2, 1, 2, 3, 2 >( "int" ) ); t.push_back( make< int, 1, 2, 1, 2, 3, 2 >( "int" ) );
  t.push_back( make< double, 0, 1, 2, 1, 3, 1, 2, 2 >( "double" ) ); t.push_back( make< double, 2, 2, 1, 3, 1, 2, 2 >( "double" ) );
}
}
