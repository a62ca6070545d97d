// Simulated system-call layer for scripts: loaded into the interpreter, inactive until simio_start().
// The virtual tree /sim stands for a scratch directory; every file operation on it is numbered, logged and can be made to fail,
// be cut short, be interrupted or be the last thing the process does. Changes to anything outside the tree are refused and recorded.
// /tmp is part of the tree. Programs started from there see the same tree (SIMIO_ROOT), without numbering or faults.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define VROOT "/sim"
#define PM 4096
enum { MAXF = 16, MAXFD = 1024, NK = 24 };
static const char * const KN[] = { "openr", "openw", "read", "write", "close", "stat", "mkdir", "rmdir", "unlink", "rename", "link", "chmod", "chdir", "readdir", "fork", "wait", "truncate", "sync", "stdout", "readlink", "time", "pipe", "exec", "other" };
enum { K_OPENR, K_OPENW, K_READ, K_WRITE, K_CLOSE, K_STAT, K_MKDIR, K_RMDIR, K_UNLINK, K_RENAME, K_LINK, K_CHMOD, K_CHDIR, K_READDIR, K_FORK, K_WAIT, K_TRUNC, K_SYNC, K_STDOUT, K_READLINK, K_TIME, K_PIPE, K_EXEC, K_OTHER };

struct Fault { int kind, nth, fired; char act[16]; long arg; char path[512]; };
static int g_on, g_logfd = -1, g_pid, g_ops, g_cap = 20000, g_full, g_nf, g_counts[NK];
static int g_shell;                  // a shell: how often it asks for the state of its children depends on real time
static char g_root[PM]; static size_t g_rl;
static char g_quiet[PM];             // reads below this virtual directory are not operations of the program
static struct Fault g_f[MAXF];
static uint64_t g_seed, g_rng;
static char * g_fd[MAXFD];           // virtual path of descriptors in the tree
static struct { DIR * d; struct dirent64 * e; int n, i; } g_dirs[64];

#define REAL( RET, NAME, ... ) static RET ( *real_ ## NAME )( __VA_ARGS__ ); 
#define GET( NAME ) do { if( !real_ ## NAME ) real_ ## NAME = dlsym( RTLD_NEXT, #NAME ); } while( 0 )

static void logf_( const char * f, ... )
{
  char b[PM * 2 + 256];
  va_list a; va_start( a, f );
  int n = vsnprintf( b, sizeof b - 1, f, a );
  va_end( a );
  if( n > ( int )sizeof b - 2 ) n = sizeof b - 2;
  b[n++] = '\n';
  syscall( SYS_write, g_logfd, b, ( size_t )n );
}
static int kindOf( const char * s ) { for( int i = 0; i < NK; ++i ) if( !strcmp( KN[i], s ) ) return i; return -1; }
static int on( void ) { return g_on && getpid() == g_pid; }
static int mapped( void ) { return g_rl != 0; }
static void die( const char * why ) { logf_( "%s", why ); syscall( SYS_kill, g_pid, SIGKILL ); for( ;; ) pause(); }

// called by the launcher in the forked child
void simio_start( const char * root, const char * quiet, int logfd, const char * plan, unsigned long seed )
{
  snprintf( g_root, sizeof g_root, "%s", root ); g_rl = strlen( g_root );
  snprintf( g_quiet, sizeof g_quiet, "%s", quiet );
  g_logfd = logfd; g_seed = seed; g_rng = seed * 2 + 1; g_ops = 0; g_nf = 0; g_full = 0;
  memset( g_counts, 0, sizeof g_counts );
  const char * p = plan;
  while( *p && g_nf < MAXF )
  {
    char k[32]; struct Fault * f = &g_f[g_nf];
    memset( f, 0, sizeof *f );
    int used = 0;
    if( sscanf( p, "%31s %d %15s %ld %511s\n%n", k, &f->nth, f->act, &f->arg, f->path, &used ) < 5 || !used ) break;
    f->kind = kindOf( k );
    ++g_nf;
    p += used;
  }
  g_pid = getpid();
  g_on = 1;
}

__attribute__(( constructor )) static void passive( void )
{
  const char * r = getenv( "SIMIO_ROOT" ), * l = getenv( "SIMIO_LOGFD" );
  if( !r || !l ) return;
  snprintf( g_root, sizeof g_root, "%s", r ); g_rl = strlen( g_root );
  g_logfd = atoi( l );
  // a program started with a plan of its own is the one whose operations are numbered
  const char * plan = getenv( "SIMIO_PLAN" );
  if( plan ) { char * c = strdup( plan );
    extern char ** environ;          // the shell has functions of its own for this
    for( char ** e = environ; *e; ++e ) if( !strncmp( *e, "SIMIO_PLAN=", 11 ) ) { for( char ** f = e; ( *f = f[1] ); ++f ) ; break; } simio_start( r, "", g_logfd, c, 1 ); g_shell = 1; }
}
unsigned sleep( unsigned s )
{
  if( g_on && getpid() == g_pid ) { g_ops += ( int )s; return 0; }
  struct timespec t = { ( long )s, 0 };
  syscall( SYS_nanosleep, &t, 0 );
  return 0;
}
// a process started under SIMIO_ROOT numbers nothing until it is told to
void simio_reset( void ) { g_rl = 0; g_root[0] = 0; }

// ---- paths ------------------------------------------------------------------------------------------------------
static void normalise( const char * in, char * out )      // absolute in, absolute out
{
  char tmp[PM * 2]; snprintf( tmp, sizeof tmp, "%s", in );
  size_t n = 0; out[0] = 0;
  for( char * save = 0, * c = strtok_r( tmp, "/", &save ); c; c = strtok_r( 0, "/", &save ) )
  {
    if( !strcmp( c, "." ) ) continue;
    if( !strcmp( c, ".." ) ) { while( n && out[--n] != '/' ) ; out[n] = 0; continue; }
    size_t l = strlen( c );
    if( n + l + 2 > PM ) break;
    out[n++] = '/'; memcpy( out + n, c, l + 1 ); n += l;
  }
  if( !n ) strcpy( out, "/" );
}
static int hasDots( const char * p ) { for( const char * q = p; ( q = strstr( q, ".." ) ); q += 2 ) if( ( q == p || q[-1] == '/' ) && ( !q[2] || q[2] == '/' ) ) return 1; return 0; }
static int under( const char * p, const char * d ) { size_t l = strlen( d ); return !strncmp( p, d, l ) && ( !p[l] || p[l] == '/' ); }
static int isV( const char * p ) { return under( p, VROOT ) || under( p, "/tmp" ); }
static int toReal( const char * v, char * r )
{
  if( under( v, VROOT ) ) return snprintf( r, PM * 2, "%s%s", g_root, v + strlen( VROOT ) ), 1;
  if( under( v, "/tmp" ) ) return snprintf( r, PM * 2, "%s%s", g_root, v ), 1;
  return 0;
}
struct Path { int in; char real[PM * 2]; char v[PM * 2]; };
static int toVirtual( const char * real, char * v )
{
  if( strncmp( real, g_root, g_rl ) || ( real[g_rl] && real[g_rl] != '/' ) ) return 0;
  if( under( real + g_rl, "/tmp" ) ) snprintf( v, PM * 2, "%s", real + g_rl );
  else snprintf( v, PM * 2, "%s%s", VROOT, real + g_rl );
  return 1;
}
static void resolve( int dfd, const char * p, struct Path * o )
{
  char a[PM * 2], n[PM * 2];
  o->in = 0;
  if( p[0] == '/' ) snprintf( a, sizeof a, "%s", p );
  else
  {
    char base[PM * 2], cw[PM], lk[PM]; long ln;
    if( dfd == AT_FDCWD )
    {
      if( syscall( SYS_getcwd, cw, sizeof cw ) < 0 ) { snprintf( o->real, sizeof o->real, "%s", p ); snprintf( o->v, sizeof o->v, "%s", p ); return; }
      if( !toVirtual( cw, base ) ) snprintf( base, sizeof base, "%s", cw );
    }
    else if( dfd >= 0 && dfd < MAXFD && g_fd[dfd] ) snprintf( base, sizeof base, "%s", g_fd[dfd] );
    else if( ( snprintf( cw, sizeof cw, "/proc/self/fd/%d", dfd ), ( ln = syscall( SYS_readlink, cw, lk, sizeof lk - 1 ) ) > 0 ) ) { lk[ln] = 0; if( !toVirtual( lk, base ) ) snprintf( base, sizeof base, "%s", lk ); }
    else { snprintf( o->real, sizeof o->real, "%s", p ); snprintf( o->v, sizeof o->v, "?/%s", p ); return; }
    snprintf( a, sizeof a, "%.*s/%s", PM, base, p );
  }
  if( isV( a ) && hasDots( a ) ) { normalise( a, n ); snprintf( a, sizeof a, "%s", n ); }
  snprintf( o->v, sizeof o->v, "%s", a );
  if( toReal( a, o->real ) ) o->in = 1;
  else snprintf( o->real, sizeof o->real, "%s", a );
}
// would a change of this path stay in the tree?
static int contained( struct Path * p, int follow )
{
  if( !p->in ) return 0;
  char t[PM * 2], r[PM];
  snprintf( t, sizeof t, "%s", p->real );
  struct stat64 st;
  if( follow && !fstatat64( AT_FDCWD, t, &st, AT_SYMLINK_NOFOLLOW ) && S_ISLNK( st.st_mode ) )
  {
    char l[PM]; ssize_t n = syscall( SYS_readlink, t, l, sizeof l - 1 );
    if( n < 0 ) return 1;
    l[n] = 0;
    if( l[0] == '/' ) return 0;
    char * s = strrchr( t, '/' ); *s = 0;
    char u[PM * 3]; snprintf( u, sizeof u, "%s/%s", t, l );
    normalise( u, t );
  }
  size_t l = strlen( t ); while( l > 1 && t[l - 1] == '/' ) t[--l] = 0;
  char * s = strrchr( t, '/' ); if( !s ) return 0;
  if( l > g_rl ) *s = 0;
  while( !realpath( t, r ) ) { s = strrchr( t, '/' ); if( !s || s == t ) return 0; *s = 0; }
  return !strncmp( r, g_root, g_rl ) && ( !r[g_rl] || r[g_rl] == '/' );
}
static int harmless( const char * v ) { return !strcmp( v, "/dev/null" ) || !strcmp( v, "/dev/tty" ); }

// ---- operations --------------------------------------------------------------------------------------------------
enum { GO = 0, FAILED = 1, SHORT = 2, HALFDIE = 3, DIEAFTER = 4, SIGAFTER = 5 };
static int g_die;
// one operation of the program; FAILED: errno is set
static int op( int k, const char * v )
{
  if( !on() ) return GO;
  if( ( k == K_OPENR || k == K_STAT || k == K_READ || k == K_CLOSE || k == K_READLINK || k == K_READDIR ) && *g_quiet && v && !strncmp( v, g_quiet, strlen( g_quiet ) ) ) return GO;
  if( ++g_ops > g_cap ) die( "cap" );
  int nth = ++g_counts[k];
  int hit = -1;
  for( int i = 0; i < g_nf; ++i ) if( g_f[i].kind == k && g_f[i].nth == nth && !g_f[i].fired ) { hit = i; break; }
  if( hit < 0 )
  {
    if( g_full && ( k == K_WRITE || k == K_MKDIR || k == K_OPENW || k == K_RENAME || k == K_LINK ) ) { logf_( "%s %s full", KN[k], v ); errno = ENOSPC; return FAILED; }
    logf_( "%s %s", KN[k], v ? v : "-" );
    return GO;
  }
  struct Fault * f = &g_f[hit];
  f->fired = 1;
  logf_( "%s %s fault %d %s %ld", KN[k], v ? v : "-", hit, f->act, f->arg );
  if( !strcmp( f->act, "errno" ) ) { errno = ( int )f->arg; return FAILED; }
  if( !strcmp( f->act, "full" ) ) { g_full = 1; if( k == K_WRITE ) return SHORT; errno = ENOSPC; return FAILED; }
  if( !strcmp( f->act, "short" ) ) return SHORT;
  if( !strcmp( f->act, "eintr" ) ) { errno = EINTR; return FAILED; }
  if( !strcmp( f->act, "crash" ) ) { if( f->arg == 0 ) die( "crash" ); return f->arg == 1 ? DIEAFTER : HALFDIE; }
  if( !strcmp( f->act, "signal" ) ) { if( f->arg > 0 ) { syscall( SYS_kill, g_pid, f->arg ); return GO; } g_die = ( int )-f->arg; return SIGAFTER; }
  if( !strcmp( f->act, "vanish" ) || !strcmp( f->act, "deny" ) || !strcmp( f->act, "appear" ) )
  {
    struct Path p; resolve( AT_FDCWD, f->path, &p );
    if( p.in )
    {
      if( !strcmp( f->act, "deny" ) ) syscall( SYS_chmod, p.real, 0 );
      else if( !strcmp( f->act, "appear" ) ) { int d = ( int )syscall( SYS_open, p.real, O_CREAT | O_WRONLY | O_EXCL, 0644 ); if( d >= 0 ) { syscall( SYS_write, d, "appeared\n", 9ul ); syscall( SYS_close, d ); } }
      else syscall( SYS_unlink, p.real );
    }
  }
  return GO;
}
static void after( int r )
{
  if( r == DIEAFTER || r == HALFDIE ) die( "crash" );
  if( r == SIGAFTER ) { int e = errno; syscall( SYS_kill, g_pid, g_die ); errno = e; }
}
#define OP( K, V, BAD ) int r_ = op( K, V ); if( r_ == FAILED ) return BAD;
#define DONE( RET ) do { __typeof__( RET ) x_ = ( RET ); int e_ = errno; after( r_ ); errno = e_; return x_; } while( 0 )
static int escape( const char * what, struct Path * p ) { logf_( "escape %s %s", what, p->v ); errno = EACCES; return -1; }

static void setfd( int fd, const char * v ) { if( fd >= 0 && fd < MAXFD ) { free( g_fd[fd] ); g_fd[fd] = v ? strdup( v ) : 0; } }
static int openImpl( int dfd, const char * path, int flags, int mode )
{
  if( !mapped() ) return ( int )syscall( SYS_openat, dfd, path, flags | O_LARGEFILE, mode );
  struct Path p; resolve( dfd, path, &p );
  int mut = ( flags & ( O_WRONLY | O_RDWR | O_CREAT | O_TRUNC ) ) != 0;
  if( mut && !harmless( p.v ) && !contained( &p, !( flags & O_NOFOLLOW ) ) ) return escape( "open", &p );
  if( !p.in ) return ( int )syscall( SYS_openat, dfd, path[0] == '/' ? p.real : path, flags | O_LARGEFILE, mode );
  OP( mut ? K_OPENW : K_OPENR, p.v, -1 );
  int fd = ( int )syscall( SYS_openat, AT_FDCWD, p.real, flags | O_LARGEFILE, mode );
  if( fd >= 0 ) setfd( fd, p.v );
  DONE( fd );
}
#define OPENARGS int mode = 0; if( flags & ( O_CREAT | __O_TMPFILE ) ) { va_list a; va_start( a, flags ); mode = va_arg( a, int ); va_end( a ); }
int open( const char * p, int flags, ... ) { OPENARGS return openImpl( AT_FDCWD, p, flags, mode ); }
int open64( const char * p, int flags, ... ) { OPENARGS return openImpl( AT_FDCWD, p, flags, mode ); }
int openat( int d, const char * p, int flags, ... ) { OPENARGS return openImpl( d, p, flags, mode ); }
int openat64( int d, const char * p, int flags, ... ) { OPENARGS return openImpl( d, p, flags, mode ); }
int __open_2( const char * p, int f ) { return openImpl( AT_FDCWD, p, f, 0 ); }
int __open64_2( const char * p, int f ) { return openImpl( AT_FDCWD, p, f, 0 ); }
int __openat_2( int d, const char * p, int f ) { return openImpl( d, p, f, 0 ); }
int __openat64_2( int d, const char * p, int f ) { return openImpl( d, p, f, 0 ); }
FILE * fopen64( const char * p, const char * m )
{
  int fl = *m == 'r' ? 0 : *m == 'w' ? O_CREAT | O_TRUNC : O_CREAT | O_APPEND;
  fl |= strchr( m, '+' ) ? O_RDWR : *m == 'r' ? O_RDONLY : O_WRONLY;
  int fd = openImpl( AT_FDCWD, p, fl | ( strchr( m, 'e' ) ? O_CLOEXEC : 0 ), 0666 );
  return fd < 0 ? 0 : fdopen( fd, m );
}
FILE * fopen( const char * p, const char * m ) { return fopen64( p, m ); }
int creat( const char * p, mode_t m ) { return openImpl( AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, ( int )m ); }

static const char * fdv( int fd ) { return fd >= 0 && fd < MAXFD ? g_fd[fd] : 0; }
ssize_t read( int fd, void * b, size_t n )
{
  const char * v = mapped() ? fdv( fd ) : 0;
  if( !v ) return syscall( SYS_read, fd, b, n );
  OP( K_READ, v, -1 );
  if( ( r_ == SHORT || r_ == HALFDIE ) && n > 1 ) n = n > 64 ? 7 : n / 2;
  DONE( ( ssize_t )syscall( SYS_read, fd, b, n ) );
}
ssize_t write( int fd, const void * b, size_t n )
{
  const char * v = mapped() ? fdv( fd ) : 0;
  if( on() && !v && ( fd == 1 || fd == 2 ) )
  {
    OP( K_STDOUT, fd == 1 ? "1" : "2", -1 );
    if( r_ == SHORT && n > 1 ) n /= 2;
    DONE( ( ssize_t )syscall( SYS_write, fd, b, n ) );
  }
  if( !v ) return syscall( SYS_write, fd, b, n );
  OP( K_WRITE, v, -1 );
  if( ( r_ == SHORT || r_ == HALFDIE ) && n > 1 ) n /= 2;
  if( on() ) logf_( "bytes %zu", n );
  DONE( ( ssize_t )syscall( SYS_write, fd, b, n ) );
}
ssize_t writev( int fd, const struct iovec * v, int n ) { ssize_t t = 0; for( int i = 0; i < n; ++i ) { ssize_t k = write( fd, v[i].iov_base, v[i].iov_len ); if( k < 0 ) return t ? t : k; t += k; if( ( size_t )k < v[i].iov_len ) break; } return t; }
ssize_t copy_file_range( int i, off64_t * a, int o, off64_t * b, size_t n, unsigned f )
{ if( !mapped() || !fdv( o ) ) return syscall( SYS_copy_file_range, i, a, o, b, n, f ); OP( K_WRITE, fdv( o ), -1 ); if( r_ == SHORT || r_ == HALFDIE ) n = 3; DONE( ( ssize_t )syscall( SYS_copy_file_range, i, a, o, b, n, f ) ); }
ssize_t sendfile64( int o, int i, off64_t * a, size_t n )
{ if( !mapped() || !fdv( o ) ) return syscall( SYS_sendfile, o, i, a, n ); OP( K_WRITE, fdv( o ), -1 ); if( r_ == SHORT || r_ == HALFDIE ) n = 3; DONE( ( ssize_t )syscall( SYS_sendfile, o, i, a, n ) ); }
int close( int fd )
{
  const char * v = mapped() ? fdv( fd ) : 0;
  if( !v ) return ( int )syscall( SYS_close, fd );
  char t[PM]; snprintf( t, sizeof t, "%s", v );
  int r_ = op( K_CLOSE, t ), e = errno;
  setfd( fd, 0 );
  int x = ( int )syscall( SYS_close, fd );
  if( r_ == FAILED ) { errno = e; return -1; }       // a failing close still releases the descriptor
  DONE( x );
}
int dup( int fd ) { int x = ( int )syscall( SYS_dup, fd ); if( mapped() && x >= 0 ) setfd( x, fdv( fd ) ); return x; }
int dup2( int a, int b ) { int x = a == b ? ( int )( fcntl( a, F_GETFD ) < 0 ? -1 : b ) : ( int )syscall( SYS_dup3, a, b, 0 ); if( mapped() && x >= 0 && a != b ) setfd( b, fdv( a ) ); return x; }
int fcntl64( int fd, int cmd, ... )
{
  va_list a; va_start( a, cmd ); void * arg = va_arg( a, void * ); va_end( a );
  int x = ( int )syscall( SYS_fcntl, fd, cmd, arg );
  if( mapped() && x >= 0 && ( cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ) ) setfd( x, fdv( fd ) );
  return x;
}
int fcntl( int fd, int cmd, ... ) { va_list a; va_start( a, cmd ); void * arg = va_arg( a, void * ); va_end( a ); return fcntl64( fd, cmd, arg ); }
int fsync( int fd ) { if( !mapped() || !fdv( fd ) ) return ( int )syscall( SYS_fsync, fd ); OP( K_SYNC, fdv( fd ), -1 ); if( on() ) logf_( "synced %s", fdv( fd ) ); DONE( 0 ); }
int fdatasync( int fd ) { return fsync( fd ); }
int ftruncate64( int fd, off64_t n ) { if( !mapped() || !fdv( fd ) ) return ( int )syscall( SYS_ftruncate, fd, n ); OP( K_TRUNC, fdv( fd ), -1 ); DONE( ( int )syscall( SYS_ftruncate, fd, n ) ); }

#define STATLIKE( CALL, DFD, P, BUF, FLAGS ) \
  if( !mapped() || ( P )[0] == 0 ) return ( int )syscall( SYS_newfstatat, DFD, P, BUF, FLAGS ); \
  struct Path p; resolve( DFD, P, &p ); \
  if( !p.in ) return ( int )syscall( SYS_newfstatat, DFD, ( P )[0] == '/' ? p.real : ( P ), BUF, FLAGS ); \
  OP( K_STAT, p.v, -1 ); DONE( ( int )syscall( SYS_newfstatat, AT_FDCWD, p.real, BUF, FLAGS ) );
int stat64( const char * P, struct stat64 * b ) { STATLIKE( 0, AT_FDCWD, P, b, 0 ) }
int lstat64( const char * P, struct stat64 * b ) { STATLIKE( 0, AT_FDCWD, P, b, AT_SYMLINK_NOFOLLOW ) }
int fstatat64( int d, const char * P, struct stat64 * b, int f ) { STATLIKE( 0, d, P, b, f ) }
int stat( const char * P, struct stat * b ) { STATLIKE( 0, AT_FDCWD, P, b, 0 ) }
int lstat( const char * P, struct stat * b ) { STATLIKE( 0, AT_FDCWD, P, b, AT_SYMLINK_NOFOLLOW ) }
int fstatat( int d, const char * P, struct stat * b, int f ) { STATLIKE( 0, d, P, b, f ) }
int statx( int d, const char * P, int f, unsigned m, struct statx * b )
{
  if( !mapped() || P[0] == 0 ) return ( int )syscall( SYS_statx, d, P, f, m, b );
  struct Path p; resolve( d, P, &p );
  if( !p.in ) return ( int )syscall( SYS_statx, d, P[0] == '/' ? p.real : P, f, m, b );
  OP( K_STAT, p.v, -1 ); DONE( ( int )syscall( SYS_statx, AT_FDCWD, p.real, f, m, b ) );
}
int faccessat( int d, const char * P, int m, int f )
{
  if( !mapped() ) return ( int )syscall( SYS_faccessat2, d, P, m, f );
  struct Path p; resolve( d, P, &p );
  if( !p.in ) return ( int )syscall( SYS_faccessat2, d, P[0] == '/' ? p.real : P, m, f );
  OP( K_STAT, p.v, -1 ); DONE( ( int )syscall( SYS_faccessat2, AT_FDCWD, p.real, m, f ) );
}
int access( const char * P, int m ) { return faccessat( AT_FDCWD, P, m, 0 ); }

static int mut1( int k, int d, const char * P, struct Path * p, int follow )
{
  resolve( d, P, p );
  if( !contained( p, follow ) ) return escape( KN[k], p );
  return 0;
}
int mkdirat( int d, const char * P, mode_t m )
{
  if( !mapped() ) return ( int )syscall( SYS_mkdirat, d, P, m );
  struct Path p; resolve( d, P, &p );
  struct stat64 st;
  if( !p.in && !syscall( SYS_newfstatat, AT_FDCWD, p.real, &st, 0 ) ) { errno = EEXIST; return -1; }      // creates nothing
  if( !contained( &p, 0 ) ) return escape( "mkdir", &p );
  OP( K_MKDIR, p.v, -1 ); DONE( ( int )syscall( SYS_mkdirat, AT_FDCWD, p.real, m ) );
}
int mkdir( const char * P, mode_t m ) { return mkdirat( AT_FDCWD, P, m ); }
int unlinkat( int d, const char * P, int f )
{
  if( !mapped() ) return ( int )syscall( SYS_unlinkat, d, P, f );
  struct Path p; int k = f & AT_REMOVEDIR ? K_RMDIR : K_UNLINK;
  if( mut1( k, d, P, &p, 0 ) ) return -1;
  OP( k, p.v, -1 ); DONE( ( int )syscall( SYS_unlinkat, AT_FDCWD, p.real, f ) );
}
int unlink( const char * P ) { return unlinkat( AT_FDCWD, P, 0 ); }
int rmdir( const char * P ) { return unlinkat( AT_FDCWD, P, AT_REMOVEDIR ); }
int remove( const char * P ) { int x = unlink( P ); return x && errno == EISDIR ? rmdir( P ) : x; }
int renameat( int a, const char * A, int b, const char * B )
{
  if( !mapped() ) return ( int )syscall( SYS_renameat, a, A, b, B );
  struct Path p, q;
  if( mut1( K_RENAME, a, A, &p, 0 ) || mut1( K_RENAME, b, B, &q, 0 ) ) return -1;
  OP( K_RENAME, q.v, -1 ); if( on() ) logf_( "from %s", p.v ); DONE( ( int )syscall( SYS_renameat, AT_FDCWD, p.real, AT_FDCWD, q.real ) );
}
int rename( const char * A, const char * B ) { return renameat( AT_FDCWD, A, AT_FDCWD, B ); }
int linkat( int a, const char * A, int b, const char * B, int f )
{
  if( !mapped() ) return ( int )syscall( SYS_linkat, a, A, b, B, f );
  struct Path p, q; resolve( a, A, &p );
  if( mut1( K_LINK, b, B, &q, 0 ) ) return -1;
  OP( K_LINK, q.v, -1 ); DONE( ( int )syscall( SYS_linkat, AT_FDCWD, p.real, AT_FDCWD, q.real, f ) );
}
int renameat2( int a, const char * A, int b, const char * B, unsigned f ) { if( mapped() && !f ) return renameat( a, A, b, B ); if( mapped() ) { errno = EINVAL; return -1; } return ( int )syscall( SYS_renameat2, a, A, b, B, f ); }
int link( const char * A, const char * B ) { return linkat( AT_FDCWD, A, AT_FDCWD, B, 0 ); }
int symlinkat( const char * T, int d, const char * P )
{
  if( !mapped() ) return ( int )syscall( SYS_symlinkat, T, d, P );
  struct Path q; if( mut1( K_LINK, d, P, &q, 0 ) ) return -1;
  OP( K_LINK, q.v, -1 ); DONE( ( int )syscall( SYS_symlinkat, T, AT_FDCWD, q.real ) );
}
int symlink( const char * T, const char * P ) { return symlinkat( T, AT_FDCWD, P ); }
int fchmodat( int d, const char * P, mode_t m, int f )
{
  if( !mapped() ) return ( int )syscall( SYS_fchmodat, d, P, m );
  struct Path p; if( mut1( K_CHMOD, d, P, &p, 1 ) ) return -1;
  OP( K_CHMOD, p.v, -1 ); if( on() ) logf_( "mode %o", m ); DONE( ( int )syscall( SYS_fchmodat, AT_FDCWD, p.real, m ) );
}
int chmod( const char * P, mode_t m ) { return fchmodat( AT_FDCWD, P, m, 0 ); }
int fchmod( int fd, mode_t m ) { if( !mapped() || !fdv( fd ) ) return ( int )syscall( SYS_fchmod, fd, m ); OP( K_CHMOD, fdv( fd ), -1 ); DONE( ( int )syscall( SYS_fchmod, fd, m ) ); }
int fchownat( int d, const char * P, uid_t u, gid_t g, int f )
{ if( !mapped() ) return ( int )syscall( SYS_fchownat, d, P, u, g, f ); struct Path p; if( mut1( K_OTHER, d, P, &p, 1 ) ) return -1; OP( K_OTHER, p.v, -1 ); DONE( ( int )syscall( SYS_fchownat, AT_FDCWD, p.real, u, g, f ) ); }
int chown( const char * P, uid_t u, gid_t g ) { return fchownat( AT_FDCWD, P, u, g, 0 ); }
int lchown( const char * P, uid_t u, gid_t g ) { return fchownat( AT_FDCWD, P, u, g, AT_SYMLINK_NOFOLLOW ); }
int utimensat( int d, const char * P, const struct timespec t[2], int f )
{ if( !mapped() || !P ) return ( int )syscall( SYS_utimensat, d, P, t, f ); struct Path p; if( mut1( K_TIME, d, P, &p, 1 ) ) return -1; OP( K_TIME, p.v, -1 ); DONE( ( int )syscall( SYS_utimensat, AT_FDCWD, p.real, t, f ) ); }
int truncate64( const char * P, off64_t n )
{ if( !mapped() ) return ( int )syscall( SYS_truncate, P, n ); struct Path p; if( mut1( K_TRUNC, AT_FDCWD, P, &p, 1 ) ) return -1; OP( K_TRUNC, p.v, -1 ); DONE( ( int )syscall( SYS_truncate, p.real, n ) ); }
int truncate( const char * P, off_t n ) { return truncate64( P, n ); }
int ftruncate( int fd, off_t n ) { return ftruncate64( fd, n ); }
int mknodat( int d, const char * P, mode_t m, dev_t v ) { if( !mapped() ) return ( int )syscall( SYS_mknodat, d, P, m, v ); struct Path p; if( mut1( K_OTHER, d, P, &p, 0 ) ) return -1; return ( int )syscall( SYS_mknodat, AT_FDCWD, p.real, m, v ); }
int mknod( const char * P, mode_t m, dev_t v ) { return mknodat( AT_FDCWD, P, m, v ); }
int mkfifo( const char * P, mode_t m ) { return mknodat( AT_FDCWD, P, S_IFIFO | m, 0 ); }

#define XR( P ) struct Path p; p.in = 0; if( mapped() ) resolve( AT_FDCWD, P, &p ); const char * r = p.in ? p.real : P;
ssize_t listxattr( const char * P, char * b, size_t n ) { XR( P ) return syscall( SYS_listxattr, r, b, n ); }
ssize_t llistxattr( const char * P, char * b, size_t n ) { XR( P ) return syscall( SYS_llistxattr, r, b, n ); }
ssize_t getxattr( const char * P, const char * k, void * b, size_t n ) { XR( P ) return syscall( SYS_getxattr, r, k, b, n ); }
ssize_t lgetxattr( const char * P, const char * k, void * b, size_t n ) { XR( P ) return syscall( SYS_lgetxattr, r, k, b, n ); }
int setxattr( const char * P, const char * k, const void * b, size_t n, int f ) { XR( P ) return ( int )syscall( SYS_setxattr, r, k, b, n, f ); }
int lsetxattr( const char * P, const char * k, const void * b, size_t n, int f ) { XR( P ) return ( int )syscall( SYS_lsetxattr, r, k, b, n, f ); }
int chdir( const char * P )
{
  if( !mapped() ) return ( int )syscall( SYS_chdir, P );
  struct Path p; resolve( AT_FDCWD, P, &p );
  if( !p.in ) return ( int )syscall( SYS_chdir, p.real );
  OP( K_CHDIR, p.v, -1 ); DONE( ( int )syscall( SYS_chdir, p.real ) );
}
char * getcwd( char * b, size_t n )
{
  char r[PM], v[PM * 2];
  if( syscall( SYS_getcwd, r, sizeof r ) < 0 ) return 0;
  const char * s = mapped() && toVirtual( r, v ) ? v : r;
  if( !b ) return strdup( s );
  if( strlen( s ) + 1 > n ) { errno = ERANGE; return 0; }
  return strcpy( b, s );
}
ssize_t readlinkat( int d, const char * P, char * b, size_t n )
{
  if( !mapped() ) return syscall( SYS_readlinkat, d, P, b, n );
  struct Path p; resolve( d, P, &p );
  if( !p.in ) return syscall( SYS_readlinkat, d, P[0] == '/' ? p.real : P, b, n );
  OP( K_READLINK, p.v, -1 ); DONE( ( ssize_t )syscall( SYS_readlinkat, AT_FDCWD, p.real, b, n ) );
}
ssize_t readlink( const char * P, char * b, size_t n ) { return readlinkat( AT_FDCWD, P, b, n ); }

// directory listings come in an order decided by the seed
static uint64_t nameKey( const char * s ) { uint64_t h = g_seed ^ 1469598103934665603ull; for( ; *s; ++s ) h = ( h ^ ( unsigned char )*s ) * 1099511628211ull; return h ^ ( h >> 29 ); }
static int cmpEnt( const void * a, const void * b )
{
  const struct dirent64 * x = a, * y = b; uint64_t p = nameKey( x->d_name ), q = nameKey( y->d_name );
  return p < q ? -1 : p > q ? 1 : strcmp( x->d_name, y->d_name );
}
REAL( DIR *, fdopendir, int )
REAL( struct dirent64 *, readdir64, DIR * )
REAL( int, closedir, DIR * )
REAL( void, rewinddir, DIR * )
static void track( DIR * d )
{
  GET( readdir64 );
  for( int i = 0; i < 64; ++i ) if( !g_dirs[i].d )
  {
    g_dirs[i].d = d; g_dirs[i].n = g_dirs[i].i = 0; g_dirs[i].e = 0;
    struct dirent64 * e;
    while( ( e = real_readdir64( d ) ) )
    {
      g_dirs[i].e = realloc( g_dirs[i].e, sizeof( *e ) * ( size_t )( g_dirs[i].n + 1 ) );
      memcpy( &g_dirs[i].e[g_dirs[i].n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e );
    }
    if( g_dirs[i].n ) qsort( g_dirs[i].e, ( size_t )g_dirs[i].n, sizeof *e, cmpEnt );
    return;
  }
}
DIR * fdopendir( int fd )
{
  GET( fdopendir );
  if( !mapped() || !fdv( fd ) ) return real_fdopendir( fd );
  OP( K_READDIR, fdv( fd ), 0 );
  DIR * d = real_fdopendir( fd );
  if( d ) track( d );
  DONE( d );
}
DIR * opendir( const char * P )
{
  int fd = openImpl( AT_FDCWD, P, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0 );
  if( fd < 0 ) return 0;
  DIR * d = fdopendir( fd );
  if( !d ) { int e = errno; close( fd ); errno = e; }
  return d;
}
struct dirent64 * readdir64( DIR * d )
{
  GET( readdir64 );
  if( mapped() ) for( int i = 0; i < 64; ++i ) if( g_dirs[i].d == d ) return g_dirs[i].i < g_dirs[i].n ? &g_dirs[i].e[g_dirs[i].i++] : 0;
  return real_readdir64( d );
}
struct dirent * readdir( DIR * d ) { return ( struct dirent * )readdir64( d ); }
void rewinddir( DIR * d ) { GET( rewinddir ); for( int i = 0; i < 64; ++i ) if( g_dirs[i].d == d ) g_dirs[i].i = 0; real_rewinddir( d ); }
int closedir( DIR * d )
{
  GET( closedir );
  if( mapped() )
  {
    for( int i = 0; i < 64; ++i ) if( g_dirs[i].d == d ) { free( g_dirs[i].e ); g_dirs[i].d = 0; }
    setfd( dirfd( d ), 0 );
  }
  return real_closedir( d );
}

// ---- processes, randomness, time ----------------------------------------------------------------------------------
REAL( pid_t, fork, void )
pid_t fork( void )
{
  GET( fork );
  if( !on() ) return real_fork();
  OP( K_FORK, "-", -1 );
  DONE( real_fork() );
}
int execve( const char * P, char * const a[], char * const e[] )
{
  if( !mapped() ) return ( int )syscall( SYS_execve, P, a, e );
  struct Path p; resolve( AT_FDCWD, P, &p );
  return ( int )syscall( SYS_execve, p.in ? p.real : P, a, e );
}
pid_t wait4( pid_t p, int * st, int o, struct rusage * u )
{
  if( !on() || g_shell ) return ( pid_t )syscall( SYS_wait4, p, st, o, u );
  OP( K_WAIT, "-", -1 );
  DONE( ( pid_t )syscall( SYS_wait4, p, st, o, u ) );
}
pid_t waitpid( pid_t p, int * st, int o ) { return wait4( p, st, o, 0 ); }
int pipe2( int fd[2], int f ) { if( !on() ) return ( int )syscall( SYS_pipe2, fd, f ); OP( K_PIPE, "-", -1 ); DONE( ( int )syscall( SYS_pipe2, fd, f ) ); }
int kill( pid_t p, int s )
{
  if( on() && p != g_pid && p <= 1 ) { logf_( "escape kill %d", ( int )p ); errno = EPERM; return -1; }
  return ( int )syscall( SYS_kill, p, s );
}
ssize_t getrandom( void * b, size_t n, unsigned f )
{
  if( !on() ) return syscall( SYS_getrandom, b, n, f );
  for( size_t i = 0; i < n; ++i ) { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; ( ( unsigned char * )b )[i] = ( unsigned char )( g_rng >> 24 ); }
  return ( ssize_t )n;
}
int clock_gettime( clockid_t c, struct timespec * t )
{
  if( !on() ) return ( int )syscall( SYS_clock_gettime, c, t );
  t->tv_sec = 1700000000 + g_ops; t->tv_nsec = 0;
  return 0;
}
time_t time( time_t * t ) { time_t x; if( on() ) x = 1700000000 + g_ops; else { struct timespec s; syscall( SYS_clock_gettime, CLOCK_REALTIME, &s ); x = s.tv_sec; } if( t ) *t = x; return x; }
