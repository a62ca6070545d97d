#include "c06.hpp"
namespace c06
{
void reg7()
{
  add( "executeSequence<1>", PACK, { 1 }, false, Pack< 1 >::run );
  add( "forNestedSequence<5,2>", NESTED, { 5, 2 }, false, Nested< 5, 2 >::run );
  add( "forRange<5,2>", RANGE, { 5, 2 }, true, Range< 5, 2 >::run );
  add( "forNestedSequence<1,2,1,3,1,2>", NESTED, { 1, 2, 1, 3, 1, 2 }, false, Nested< 1, 2, 1, 3, 1, 2 >::run );
  add( "forRange<3,40000>", RANGE, { 3, 40000 }, true, Range< 3, 40000 >::run );
  add( "BasisProduct<1>::supportLoop", SUPPORT, { 2 }, false, Support< BP< L1 > >::run );
  add( "forNestedSequence<3,1,2,3,2>", NESTED, { 3, 1, 2, 3, 2 }, false, Nested< 3, 1, 2, 3, 2 >::run );
  add( "forNestedSequence<3,0,2>", NESTED, { 3, 0, 2 }, false, Nested< 3, 0, 2 >::run );
  add( "forRange<7,1,2>", RANGE, { 7, 1, 2 }, true, Range< 7, 1, 2 >::run );
}
}
