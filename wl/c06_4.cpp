#include "c06.hpp"
namespace c06
{
void reg4()
{
  add( "forSequence<3>", SEQ, { 3 }, false, Seq< 3 >::run );
  add( "executeSequence<21>", PACK, { 1 }, false, Pack< 21 >::run );
  add( "forRange<6>", RANGE, { 6 }, true, Range< 6 >::run );
  add( "forSequence<120>", SEQ, { 120 }, false, Seq< 120 >::run );
  add( "forRange<90>", RANGE, { 90 }, true, Range< 90 >::run );
  add( "linearIndex<300,2,5,7,11>", LINEAR, { 300, 2, 5, 7, 11 }, true, Linear< int, 300, 2, 5, 7, 11 >::run );
  add( "InterpolatedShape<1,1,1>::supportLoop", SUPPORT, { 2, 2, 2 }, false, Support< IS< L1, L1, L1 > >::run );
  add( "forNestedSequence<2,3,1,4>", NESTED, { 2, 3, 1, 4 }, false, Nested< 2, 3, 1, 4 >::run );
  add( "forRange<2,9>", RANGE, { 2, 9 }, true, Range< 2, 9 >::run );
}
}
