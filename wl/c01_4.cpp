#include "c01.hpp"
namespace c01
{
void reg4()
{
  using namespace wl;
  Reg< double, 2, 0, 27, B< double, 2, ref::GLL >, B< double, 2, ref::GLL >, B< double, 2, ref::GLL > >::go();
  Reg< double, 3, 0, 8, B< double, 1, ref::EQ >, B< double, 1, ref::EQ >, B< double, 1, ref::EQ > >::go();
  Reg< double, 3, 1, 8, B< double, 1, ref::GLL >, B< double, 1, ref::GLL >, B< double, 1, ref::GLL > >::go();
  Reg< double, 2, 1, 8, B< double, 1, ref::GL >, B< double, 1, ref::GL >, B< double, 1, ref::GL > >::go();
}
}
