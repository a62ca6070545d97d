#include "c06.hpp"
namespace c06
{
void reg1()
{
  add( "forSequence<0>", SEQ, { 0 }, false, Seq< 0 >::run );
  add( "executeSequence<2>", PACK, { 1 }, false, Pack< 2 >::run );
  add( "forNestedSequence<2,3,4>", NESTED, { 2, 3, 4 }, false, Nested< 2, 3, 4 >::run );
  add( "forRange<2,3,4>", RANGE, { 2, 3, 4 }, true, Range< 2, 3, 4 >::run );
  add( "forNestedSequence<2,17>", NESTED, { 2, 17 }, false, Nested< 2, 17 >::run );
  add( "forRange<50,60,70>", RANGE, { 50, 60, 70 }, true, Range< 50, 60, 70 >::run );
  add( "BasisProduct<2,1>::supportLoop", SUPPORT, { 3, 2 }, false, Support< BP< L2, L1 > >::run );
  add( "forNestedSequence<1,4>", NESTED, { 1, 4 }, false, Nested< 1, 4 >::run );
  add( "forNestedSequence<0,3>", NESTED, { 0, 3 }, false, Nested< 0, 3 >::run );
  add( "forRange<1>", RANGE, { 1 }, true, Range< 1 >::run );
}
}
