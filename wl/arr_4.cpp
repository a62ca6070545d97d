#include "arr.hpp"
namespace arr
{
void reg4()
{
  auto & t = tys();
  t.push_back( make< double, 0, 1 >( "double" ) ); t.push_back( make< double, 0, 9 >( "double" ) ); t.push_back( make< double, 1, 3, 3 >( "double" ) );
  t.push_back( make< int, 0, 2, 1, 2, 3 >( "int" ) ); t.push_back( make< int, 2, 2, 1, 2, 3 >( "int" ) );
}
}
