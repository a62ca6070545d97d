#include "arr.hpp"
namespace arr
{
std::vector< Ty > & tys() { static std::vector< Ty > v; return v; }
void reg1()
{
  auto & t = tys();
  t.push_back( make< double, 0, 2, 3, 4 >( "double" ) ); t.push_back( make< double, 1, 2, 3, 4 >( "double" ) ); t.push_back( make< double, 2, 2, 3, 4 >( "double" ) );
  t.push_back( make< int8_t, 0, 3, 1, 5 >( "int8" ) ); t.push_back( make< int8_t, 1, 3, 1, 5 >( "int8" ) );
}
}
