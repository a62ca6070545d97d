// Exceptions the caller's functions throw, of several types, each telling where it was thrown.
#pragma once
#include "sim.h"
#include <new>
#include <stdexcept>

namespace exc
{
struct Tag { int op; int64_t visit; double tag; };
struct Plain : Tag {};
struct Memory : std::bad_alloc, Tag {};
struct Runtime : std::runtime_error, Tag { Runtime() : std::runtime_error( "injected" ) {} };
struct Range : std::out_of_range, Tag { Range() : std::out_of_range( "injected" ) {} };
struct Base : std::exception, Tag {};
constexpr int NTYPES = 6;
enum { NOMEM = -1, OTHER = -2 };

inline Tag tagOf( int op, int64_t visit ) { return { op, visit, 0.5 * op }; }
template< typename E > [[noreturn]] void raiseAs( Tag t ) { E e; static_cast< Tag & >( e ) = t; sim::enter(); throw e; }
// called with the window closed
[[noreturn]] inline void raise( int64_t type, int op, int64_t visit )
{
  Tag t = tagOf( op, visit );
  switch( type % NTYPES )
  {
    case 0: raiseAs< Plain >( t );
    case 1: raiseAs< Memory >( t );
    case 2: raiseAs< Runtime >( t );
    case 3: raiseAs< Range >( t );
    case 4: raiseAs< Base >( t );
    default: { int k = static_cast< int >( op * 4096 + visit % 4096 ); sim::enter(); throw k; }
  }
}
// inside a handler: what came out
inline int classify( Tag & t )
{
  try { throw; }
  catch( Plain const & e ) { t = e; return 0; }
  catch( Memory const & e ) { t = e; return 1; }
  catch( Runtime const & e ) { t = e; return 2; }
  catch( Range const & e ) { t = e; return 3; }
  catch( Base const & e ) { t = e; return 4; }
  catch( int k ) { t = tagOf( k / 4096, k % 4096 ); return 5; }
  catch( std::bad_alloc const & ) { return NOMEM; }
  catch( ... ) { return OTHER; }
}
} // namespace exc
