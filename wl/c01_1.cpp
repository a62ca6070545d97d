#include "c01.hpp"
namespace c01
{
void reg1()
{
  regBasis< double, 1, ref::EQ >(); regBasis< double, 2, ref::EQ >(); regBasis< double, 3, ref::EQ >(); regBasis< double, 4, ref::EQ >(); regBasis< double, 5, ref::EQ >(); regBasis< double, 6, ref::EQ >();
  regBasis< double, 1, ref::GL >(); regBasis< double, 2, ref::GL >(); regBasis< double, 3, ref::GL >();
  regBasis< float, 1, ref::EQ >(); regBasis< float, 2, ref::EQ >(); regBasis< float, 4, ref::EQ >();
  regBasis< float, 3, ref::EQ >(); regBasis< float, 5, ref::EQ >(); regBasis< double, 7, ref::EQ >(); regBasis< double, 8, ref::EQ >(); regBasis< float, 1, ref::GL >();
  regBasis< float, 2, ref::GL >(); regBasis< float, 3, ref::GL >();
}
}
