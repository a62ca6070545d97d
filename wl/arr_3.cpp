#include "arr.hpp"
namespace arr
{
void reg3()
{
  auto & t = tys();
  t.push_back( make< int64_t, 0, 2, 2, 3, 2 >( "int64" ) ); t.push_back( make< int64_t, 1, 2, 2, 3, 2 >( "int64" ) );
}
}
