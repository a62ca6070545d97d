#include "c01.hpp"
namespace c01
{
void reg2()
{
  regBasis< double, 1, ref::GLL >(); regBasis< double, 2, ref::GLL >(); regBasis< double, 3, ref::GLL >(); regBasis< double, 4, ref::GLL >(); regBasis< double, 5, ref::GLL >();
  regBasis< double, 6, ref::GLL >(); regBasis< double, 7, ref::GLL >(); regBasis< double, 8, ref::GLL >();
  regBasis< float, 1, ref::GLL >(); regBasis< float, 2, ref::GLL >(); regBasis< float, 3, ref::GLL >(); regBasis< float, 4, ref::GLL >(); regBasis< float, 5, ref::GLL >(); regBasis< float, 6, ref::GLL >(); regBasis< float, 7, ref::GLL >(); regBasis< float, 8, ref::GLL >();
}
}
