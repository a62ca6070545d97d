#include "c01.hpp"
namespace c01
{
void reg5()
{
  using namespace wl;
  Reg< double, 2, 1, 16, B< double, 1, ref::GLL >, B< double, 2, ref::GLL >, B< double, 3, ref::GLL > >::go();
  Reg< double, 1, 0, 12, B< double, 3, ref::GL >, B< double, 2, ref::EQ >, B< double, 4, ref::GLL > >::go();
  Reg< double, 3, 2, 10, B< double, 3, ref::EQ >, B< double, 3, ref::EQ >, B< double, 1, ref::GLL > >::go();
  Reg< float, 2, 0, 8, B< float, 1, ref::GLL >, B< float, 1, ref::GLL >, B< float, 1, ref::GLL > >::go();
  Reg< float, 3, 1, 8, B< float, 2, ref::EQ >, B< float, 1, ref::GL >, B< float, 2, ref::GLL > >::go();
}
}
