#include "c01.hpp"
namespace c01
{
void reg6()
{
  using namespace wl;
  Reg< double, 2, 0, 10, B< double, 4, ref::GLL >, B< double, 4, ref::GLL >, B< double, 4, ref::GLL > >::go();
  Reg< double, 2, 0, 8, B< double, 3, ref::GLL >, B< double, 3, ref::GLL >, B< double, 3, ref::GLL > >::go();
  Reg< double, 1, 0, 8, B< double, 1, ref::EQ >, B< double, 2, ref::GL >, B< double, 1, ref::GLL >, B< double, 2, ref::EQ > >::go();
}
}
