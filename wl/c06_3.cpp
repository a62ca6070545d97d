#include "c06.hpp"
namespace c06
{
void reg3()
{
  add( "forSequence<2>", SEQ, { 2 }, false, Seq< 2 >::run );
  add( "executeSequence<8>", PACK, { 1 }, false, Pack< 8 >::run );
  add( "forNestedSequence<2,1,3,2>", NESTED, { 2, 1, 3, 2 }, false, Nested< 2, 1, 3, 2 >::run );
  add( "forRange<3,1,2,4>", RANGE, { 3, 1, 2, 4 }, true, Range< 3, 1, 2, 4 >::run );
  add( "forRange<2,2,1,2,2,3>", RANGE, { 2, 2, 1, 2, 2, 3 }, true, Range< 2, 2, 1, 2, 2, 3 >::run );
  add( "linearIndex<1000,2000>", LINEAR, { 1000, 2000 }, true, Linear< int, 1000, 2000 >::run );
  add( "BasisProduct<2,1,1,4>::supportLoop", SUPPORT, { 3, 2, 2, 5 }, false, Support< BP< L2, L1, L1, L4 > >::run );
  add( "forNestedSequence<1,1,5>", NESTED, { 1, 1, 5 }, false, Nested< 1, 1, 5 >::run );
  add( "forRange<1,5>", RANGE, { 1, 5 }, true, Range< 1, 5 >::run );
}
}
