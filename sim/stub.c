// Stand-in for a tool (cmake, make, ctest, docker, ...): records how it was called and behaves as the plan says.
// SIMSTUB_PLAN: lines "<name> <nth or 0 for any> <status> <signal> [action ...]"; actions: mk:P write a file, dir:P make a directory, rm:P remove a file,
// a name may be followed by ~WORD (only calls with an argument holding WORD) or !WORD (only calls without one). say:T print T,
// rmdir:P remove an empty directory, exec:PROG become a real program with the same arguments, append:WORD put a word before the arguments of exec.
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static char * slurp( const char * p )
{
  long fd = syscall( SYS_open, p, O_RDONLY ); char * b = calloc( 1, 1 << 20 ); long n = 0, k;
  if( fd < 0 ) return b;
  while( n < ( 1 << 20 ) - 1 && ( k = syscall( SYS_read, fd, b + n, ( 1 << 20 ) - 1 - n ) ) > 0 ) n += k;
  syscall( SYS_close, fd );
  return b;
}
extern char ** environ;
int main( int argc, char ** argv )
{
  const char * name = strrchr( argv[0], '/' ); name = name ? name + 1 : argv[0];
  const char * lp = getenv( "SIMSTUB_LOG" ), * pp = getenv( "SIMSTUB_PLAN" );
  if( !lp || !pp ) return 99;
  char * log = slurp( lp ); int nth = 1; char key[128];
  snprintf( key, sizeof key, "\x1e%s\x1f", name );
  for( char * q = log; ( q = strstr( q, key ) ); ++q ) ++nth;
  char * out = malloc( 1 << 20 ), cw[4096]; size_t n = 0;
  if( !getcwd( cw, sizeof cw ) ) strcpy( cw, "?" );
  n += ( size_t )sprintf( out + n, "\x1e%s\x1f%s\x1f%d", name, cw, argc - 1 );
  for( int i = 1; i < argc; ++i ) n += ( size_t )snprintf( out + n, 65536, "\x1f%s", argv[i] );
  const char * want = getenv( "SIMSTUB_ENV" );
  if( want )
    for( char ** e = environ; *e; ++e )
    {
      char k[256]; size_t l = strcspn( *e, "=" );
      if( l > 200 ) continue;
      snprintf( k, sizeof k, ":%.*s:", ( int )l, *e );
      if( strstr( want, k ) ) n += ( size_t )snprintf( out + n, 65536, "\x1f%s", *e );
    }
  out[n++] = '\n';
  long fd = syscall( SYS_open, lp, O_WRONLY | O_APPEND );
  syscall( SYS_write, fd, out, n );
  syscall( SYS_close, fd );
  char * plan = slurp( pp ), * best = 0;
  for( char * save = 0, * l = strtok_r( plan, "\n", &save ); l; l = strtok_r( 0, "\n", &save ) )
  {
    char nm[64]; int k;
    if( sscanf( l, "%63s %d", nm, &k ) != 2 ) continue;
    char * cond = strpbrk( nm, "~!" ), neg = cond ? *cond : 0;
    if( cond )
    {
      int has = 0;
      *cond++ = 0;
      for( int i = 1; i < argc; ++i ) has |= strstr( argv[i], cond ) != 0;
      if( has != ( neg == '~' ) ) continue;
    }
    if( !strcmp( nm, name ) && ( k == nth || ( k == 0 && !best ) ) ) { best = l; if( k ) break; }
  }
  if( !best ) return 0;
  int k, status, sig; char * save = 0, * extra = 0;
  strtok_r( best, " ", &save );
  k = atoi( strtok_r( 0, " ", &save ) ); status = atoi( strtok_r( 0, " ", &save ) ); sig = atoi( strtok_r( 0, " ", &save ) );
  for( char * a; ( a = strtok_r( 0, " ", &save ) ); )
  {
    char * v = strchr( a, ':' ); if( !v ) continue; *v++ = 0;
    if( !strcmp( a, "mk" ) ) { int d = open( v, O_CREAT | O_WRONLY | O_TRUNC, 0644 ); if( d >= 0 ) { write( d, v, strlen( v ) ); close( d ); } }
    else if( !strcmp( a, "say" ) ) { write( 1, v, strlen( v ) ); write( 1, "\n", 1 ); }
    else if( !strcmp( a, "dir" ) ) mkdir( v, 0755 );
    else if( !strcmp( a, "rm" ) ) unlink( v );
    else if( !strcmp( a, "rmdir" ) ) rmdir( v );
    else if( !strcmp( a, "append" ) ) extra = v;
    else if( !strcmp( a, "exec" ) )
    {
      char ** av = calloc( ( size_t )argc + 3, sizeof *av ); int m = 0;
      av[m++] = v; if( extra ) av[m++] = extra;
      for( int i = 1; i < argc; ++i ) av[m++] = argv[i];
      execvp( v, av );
      return 126;
    }
  }
  if( sig ) { signal( sig, SIG_DFL ); kill( getpid(), sig ); pause(); }
  return status;
}
