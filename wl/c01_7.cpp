#include "c01.hpp"
namespace c01
{
void reg7()
{
  using namespace wl;
  Reg< double, 2, 2, 6, B< double, 6, ref::GLL >, B< double, 5, ref::GLL >, B< double, 1, ref::GLL > >::go();
  Reg< double, 3, 1, 5, B< double, 8, ref::GLL >, B< double, 1, ref::GLL >, B< double, 7, ref::GLL > >::go();
  Reg< double, 1, 1, 12, B< double, 2, ref::GLL >, B< double, 1, ref::EQ >, B< double, 3, ref::GLL >, B< double, 1, ref::GLL > >::go();
  Reg< float, 3, 2, 12, B< float, 1, ref::GLL >, B< float, 2, ref::EQ >, B< float, 1, ref::GL >, B< float, 1, ref::GLL > >::go();
  Reg< float, 1, 0, 6, B< float, 7, ref::GLL >, B< float, 6, ref::EQ > >::go();
  Reg< double, 3, 0, 5, B< double, 5, ref::EQ >, B< double, 2, ref::EQ >, B< double, 4, ref::EQ > >::go();
}
}
