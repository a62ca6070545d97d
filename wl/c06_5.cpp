#include "c06.hpp"
namespace c06
{
void reg5()
{
  add( "forSequence<7>", SEQ, { 7 }, false, Seq< 7 >::run );
  add( "forNestedSequence<4>", NESTED, { 4 }, false, Nested< 4 >::run );
  add( "forRange<2,2,2>", RANGE, { 2, 2, 2 }, true, Range< 2, 2, 2 >::run );
  add( "executeSequence<70>", PACK, { 1 }, false, Pack< 70 >::run );
  add( "forRange<300,400>", RANGE, { 300, 400 }, true, Range< 300, 400 >::run );
  add( "linearIndex<long:3000,700,1000>", LINEAR, { 3000, 700, 1000 }, true, Linear< long, 3000, 700, 1000 >::run );
  add( "InterpolatedShape<3,1>::supportLoop", SUPPORT, { 4, 2 }, false, Support< IS< L3, L1 > >::run );
  add( "forNestedSequence<1,2,2,1,3,2>", NESTED, { 1, 2, 2, 1, 3, 2 }, false, Nested< 1, 2, 2, 1, 3, 2 >::run );
  add( "forRange<3,2,1,2,4>", RANGE, { 3, 2, 1, 2, 4 }, true, Range< 3, 2, 1, 2, 4 >::run );
}
}
