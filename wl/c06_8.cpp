#include "c06.hpp"
namespace c06
{
void reg8()
{
  add( "forNestedSequence<2,3,1>", NESTED, { 2, 3, 1 }, false, Nested< 2, 3, 1 >::run );
  add( "forRange<2,3,1>", RANGE, { 2, 3, 1 }, true, Range< 2, 3, 1 >::run );
  add( "forNestedSequence<3,1>", NESTED, { 3, 1 }, false, Nested< 3, 1 >::run );
  add( "forNestedSequence<1,1,1>", NESTED, { 1, 1, 1 }, false, Nested< 1, 1, 1 >::run );
  add( "forNestedSequence<1,3,1>", NESTED, { 1, 3, 1 }, false, Nested< 1, 3, 1 >::run );
  add( "forNestedSequence<2,2,3,1>", NESTED, { 2, 2, 3, 1 }, false, Nested< 2, 2, 3, 1 >::run );
  add( "forNestedSequence<3,1,1>", NESTED, { 3, 1, 1 }, false, Nested< 3, 1, 1 >::run );
  add( "forRange<4,1>", RANGE, { 4, 1 }, true, Range< 4, 1 >::run );
  add( "forNestedSequence<1>", NESTED, { 1 }, false, Nested< 1 >::run );
}
}
