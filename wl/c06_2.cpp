#include "c06.hpp"
namespace c06
{
void reg2()
{
  add( "forSequence<1>", SEQ, { 1 }, false, Seq< 1 >::run );
  add( "executeSequence<3>", PACK, { 1 }, false, Pack< 3 >::run );
  add( "forNestedSequence<4,1,3>", NESTED, { 4, 1, 3 }, false, Nested< 4, 1, 3 >::run );
  add( "forRange<4,3,2>", RANGE, { 4, 3, 2 }, true, Range< 4, 3, 2 >::run );
  add( "forRange<2,1,2,2,2>", RANGE, { 2, 1, 2, 2, 2 }, true, Range< 2, 1, 2, 2, 2 >::run );
  add( "linearIndex<4,3,2>", LINEAR, { 4, 3, 2 }, true, Linear< int, 4, 3, 2 >::run );
  add( "BasisProduct<1,3,2>::supportLoop", SUPPORT, { 2, 4, 3 }, false, Support< BP< L1, L3, L2 > >::run );
  add( "forNestedSequence<3,3,3>", NESTED, { 3, 3, 3 }, false, Nested< 3, 3, 3 >::run );
  add( "forNestedSequence<2,2,0>", NESTED, { 2, 2, 0 }, false, Nested< 2, 2, 0 >::run );
}
}
