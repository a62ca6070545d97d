#include "c06.hpp"
namespace c06
{
void reg6()
{
  add( "forSequence<33>", SEQ, { 33 }, false, Seq< 33 >::run );
  add( "forNestedSequence<2,3>", NESTED, { 2, 3 }, false, Nested< 2, 3 >::run );
  add( "forRange<3,4>", RANGE, { 3, 4 }, true, Range< 3, 4 >::run );
  add( "forNestedSequence<2,2,2,2,2>", NESTED, { 2, 2, 2, 2, 2 }, false, Nested< 2, 2, 2, 2, 2 >::run );
  add( "forRange<70000>", RANGE, { 70000 }, true, Range< 70000 >::run );
  add( "linearIndex<long:40000,50000>", LINEAR, { 40000, 50000 }, true, Linear< long, 40000, 50000 >::run );
  add( "forNestedSequence<2,1,2,2,3>", NESTED, { 2, 1, 2, 2, 3 }, false, Nested< 2, 1, 2, 2, 3 >::run );
  add( "forNestedSequence<9,2,2>", NESTED, { 9, 2, 2 }, false, Nested< 9, 2, 2 >::run );
  add( "forRange<1,1,1,2,3,4>", RANGE, { 1, 1, 1, 2, 3, 4 }, true, Range< 1, 1, 1, 2, 3, 4 >::run );
}
}
