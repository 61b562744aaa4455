#include "salsify.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

extern std::string g_build_dir;
extern bool filter_on; extern std::map<int, std::set<u64>> filter_allow; extern std::set<int> filter_all;
struct FaultRec { int kind; u64 idx, t; };
extern std::vector<FaultRec> fault_log;
void driver_init();
void scenario_tools(); void finish_tools();
static std::string esc( const std::string & s )
{
  std::string r; char b[ 8 ];
  for ( unsigned char c : s ) { if ( c == '"' || c == '\\' ) { r += '\\'; r += c; } else if ( c < 32 || c > 126 ) { snprintf( b, 8, "\\u%04x", c ); r += b; } else r += c; }
  return r;
}
static std::string out_path;
static char crash_json[ 1024 ]; static int crash_len = 0;
void note_crash( const char * why ) // called in a fatal signal handler: should the heap be beyond use, still say what happened
{
  crash_len = snprintf( crash_json, sizeof crash_json, "{\"violations\":[{\"class\":\"node-died\",\"msg\":\"%s\",\"t\":%lu}],\"trace\":\"crash-%016lx\",\"partial\":true}\n", why, W.now, W.trace );
  alarm( 20 );
}
// past the simulated kernel: the signal may have come while a simulated program was running
static void emergency( int n )
{
  int fd = syscall( SYS_open, out_path.empty() ? "/dev/stdout" : out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
  if ( syscall( SYS_write, fd, crash_json, n ) ) {}
  _exit( 0 );
}
static void on_alarm( int )
{
  if ( crash_len ) {
    emergency( crash_len );
  }
  _exit( 71 );
}
// No simulated step for a long stretch of processor time: a program computes without end.
int run_ticks = -1; u64 run_trace, run_began; // of the tools run last
static void on_prof( int )
{
  static u64 last = ~0ull; static int idle = 0;
  // a tool that is still at the same run after 24 seconds of processor time is taken to go round in circles (runs take up to one or two)
  if ( run_ticks >= 0 && ++run_ticks >= 6 ) idle = 3, last = W.steps, W.trace = run_trace, W.now = run_began;
  if ( W.steps != last ) { last = W.steps; idle = 0; return; }
  if ( ++idle < 3 || crash_len ) return;
  int n = snprintf( crash_json, sizeof crash_json, "{\"seed\":%lu,\"violations\":[{\"class\":\"node-hung\",\"msg\":\"a program computes without end (many seconds of processor time without a step or an end)\",\"t\":%lu}],\"trace\":\"hang-%016lx\",\"partial\":true}\n", W.cfg.seed, W.now, W.trace );
  emergency( n );
}
int main( int argc, char ** argv )
{
  int pers = personality( 0xffffffff );
  if ( pers >= 0 && !( pers & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_REEXEC" ) ) {
    if ( personality( pers | ADDR_NO_RANDOMIZE ) >= 0 ) { setenv( "SIM_REEXEC", "1", 1 ); execv( "/proc/self/exe", argv ); }
  }
  mallopt( M_ARENA_MAX, 1 );
  mallopt( M_MMAP_THRESHOLD, 1 << 30 ); mallopt( M_TRIM_THRESHOLD, 1 << 30 );
  std::string filter, trace;
  for ( int i = 1; i < argc; i++ ) {
    std::string a = argv[ i ];
    auto nx = [ & ] { return std::string( i + 1 < argc ? argv[ ++i ] : "" ); };
    if ( a == "--prop" ) W.cfg.prop = nx();
    else if ( a == "--seed" ) W.cfg.seed = strtoull( nx().c_str(), 0, 0 );
    else if ( a == "--filter" ) filter = nx();
    else if ( a == "--out" ) out_path = nx();
    else if ( a == "--trace" ) trace = nx();
    else if ( a == "--bin" ) g_build_dir = nx();
    else { size_t e = a.find( '=' ); if ( e != std::string::npos ) W.cfg.kv[ a.substr( 0, e ) ] = a.substr( e + 1 ); }
  }
  signal( SIGALRM, on_alarm );
  { struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART; sigaction( SIGPROF, &sa, nullptr );
    struct itimerval it = { { 10, 0 }, { 10, 0 } }; setitimer( ITIMER_PROF, &it, nullptr ); }
  if ( !filter.empty() ) {
    filter_on = true;
    FILE * f = fopen( filter.c_str(), "r" ); char k[ 64 ]; char v[ 64 ];
    while ( f && fscanf( f, "%63s %63s", k, v ) == 2 ) {
      int kind = -1; for ( int i = 0; i < F_NKINDS; i++ ) if ( !strcmp( fault_name[ i ], k ) ) kind = i;
      if ( kind < 0 ) continue;
      if ( !strcmp( v, "*" ) ) filter_all.insert( kind ); else filter_allow[ kind ].insert( strtoull( v, 0, 10 ) );
    }
    if ( f ) fclose( f );
  }
  if ( !trace.empty() ) W.log_on = true;
  alloc_poison_seed = W.cfg.n( "poison", h2( W.cfg.seed, 5 ) );
  driver_init();
  std::string p = W.cfg.prop;
  bool tools = p == "C12" || p == "C13" || p == "C14" || p == "C15" || p == "C16" || p == "C18" || p == "C19" || p == "C20" || p == "C21" || p == "C22" || ( p == "C17" && W.cfg.seed % 4 == 3 );
  if ( tools ) { struct itimerval it = { { 4, 0 }, { 4, 0 } }; setitimer( ITIMER_PROF, &it, nullptr ); reuse_instances = true; alloc_limit = 256u << 20; guard_memory = W.cfg.n( "guard", p == "C16" ); }
  if ( tools ) scenario_tools(); else { scenario_salsify(); run_world(); finish_salsify(); }
  if ( tools ) finish_tools();
  alarm( 0 );
  if ( W.cfg.has( "dumpvfs" ) ) vfs_dump( W.cfg.kv[ "dumpvfs" ] );
  if ( !trace.empty() ) { FILE * f = fopen( trace.c_str(), "w" ); for ( auto & l : W.log ) fprintf( f, "%s\n", l.c_str() ); fclose( f ); }
  FILE * f = out_path.empty() ? stdout : fopen( out_path.c_str(), "w" );
  fprintf( f, "{\"seed\":%lu,\"violations\":[", W.cfg.seed );
  for ( size_t i = 0; i < W.violations.size(); i++ ) fprintf( f, "%s{\"class\":\"%s\",\"msg\":\"%s\",\"t\":%lu}", i ? "," : "", esc( W.violations[ i ].cls ).c_str(), esc( W.violations[ i ].msg ).c_str(), W.violations[ i ].t );
  fprintf( f, "],\"sim_ns\":%lu,\"steps\":%lu,\"switches\":%lu,\"events\":%lu,\"trace\":\"%016lx\",\"sched\":\"%016lx\",\"faults\":{", W.now, W.steps, W.nswitches, W.nevents, W.trace, W.sched_trace );
  bool c = false; for ( int k = 0; k < F_NKINDS; k++ ) if ( fault_count( (FaultKind) k ) ) { fprintf( f, "%s\"%s\":%lu", c ? "," : "", fault_name[ k ], fault_count( (FaultKind) k ) ); c = true; }
  fprintf( f, "},\"counters\":{" );
  c = false; for ( auto & x : W.counters ) { fprintf( f, "%s\"%s\":%lu", c ? "," : "", esc( x.first ).c_str(), x.second ); c = true; }
  fprintf( f, "},\"fault_log\":[" );
  if ( W.violations.size() || W.cfg.has( "faultlog" ) ) {
    // preemptions can be very many: they are listed only up to a limit
    c = false; size_t n = 0;
    for ( auto & x : fault_log ) { if ( n++ > 200000 ) break; fprintf( f, "%s[\"%s\",%lu,%lu]", c ? "," : "", fault_name[ x.kind ], x.idx, x.t ); c = true; }
  }
  fprintf( f, "]}\n" );
  fflush( f );
  _exit( 0 );
}
