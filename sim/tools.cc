// Scenarios for the command-line tools: the real programs over the simulated file system,
// with crashes, I/O errors and damaged files.
#include "tools.hh"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <iostream>

std::string S( const char * f, ... ) { char b[ 900 ]; va_list ap; va_start( ap, f ); vsnprintf( b, sizeof b, f, ap ); va_end( ap ); return b; }
std::string tail( const std::string & s, size_t n ) { return s.size() <= n ? s : s.substr( s.size() - n ); }
void fail( const std::string & cls, const std::string & msg ) { violation( cls, msg ); throw Abort(); }
void put_file( const std::string & p, const Bytes & b ) { vfs_put( p, b.data(), b.size() ); }

// ---------- running programs ----------
static int pending_tools; extern int run_ticks; extern u64 run_trace, run_began;
std::vector<Run> group( const std::vector<Job> & jobs )
{
  std::vector<Run> rs( jobs.size() );
  std::cin.clear(); std::cin.copyfmt( std::ios( nullptr ) ); std::cout.clear(); std::cout.copyfmt( std::ios( nullptr ) ); std::cerr.clear(); std::cerr.copyfmt( std::ios( nullptr ) ); std::wcout.clear(); std::wcout.copyfmt( std::wios( nullptr ) );
  pending_tools = jobs.size(); run_ticks = 0; run_trace = W.trace; run_began = W.now;
  io_rates = jobs[ 0 ].opt.rates;
  for ( size_t i = 0; i < jobs.size(); i++ ) {
    const Job & j = jobs[ i ]; Run & r = rs[ i ];
    std::vector<std::string> a{ j.prog }; a.insert( a.end(), j.args.begin(), j.args.end() );
    for ( auto & x : a ) r.what += ( r.what.empty() ? "" : " " ) + x;
    logf( "run: %s", r.what.c_str() );
    r.pipe = std::make_shared<PipeOut>();
    r.node = node_start( j.prog + "." + std::to_string( W.nodes.size() ), j.prog + ".so", a, [ & ]( Node * n ) {
      auto in = std::make_shared<PipeIn>(); in->data = j.opt.in;
      n->fds[ 0 ] = in; n->fds[ 1 ] = r.pipe; n->fds[ 2 ] = std::make_shared<PipeOut>();
      n->io_faults = j.opt.io; n->kill_at_syscall = j.opt.kill_sys; n->kill_torn = j.opt.torn; n->kill_at_block = j.opt.kill_blk;
      n->on_end = [] { if ( --pending_tools == 0 ) W.stop = true; };
      if ( j.opt.setup ) j.opt.setup( n, r.pipe.get() );
    } );
  }
  W.max_steps = W.steps + 4000000; W.end_time = W.now + 36000 * SEC; W.deadlock = false;
  run_world();
  if ( W.violations.size() ) throw Abort();
  for ( auto & r : rs ) {
    Node * n = r.node;
    if ( n->alive() ) {
      bool dl = W.deadlock; std::string why = n->main_thread ? n->main_thread->why : "";
      node_kill( n, "stuck" );
      fail( "tool-stuck", r.what + ( dl ? ": waits for ever in " : ": does not end, last seen in " ) + why );
    }
    r.exited = n->st == Node::EXITED; r.status = r.exited ? n->exit_status : n->st == Node::DIED ? n->exit_status : -1;
    r.died = n->st == Node::DIED; r.killed = n->st == Node::KILLED; r.why = n->why; r.err = n->err; r.out = r.pipe->data;
    auto e2 = n->fds.find( 2 ); (void) e2;
    W.counters[ "tool_runs" ]++;
    logf( "  -> %s %d %s | %s", r.exited ? "exit" : r.died ? "died" : "killed", r.status, r.why.c_str(), tail( r.err, 100 ).c_str() );
    if ( r.died && r.status >= 128 && r.status != 134 ) fail( "tool-crashed", r.what + ": " + r.why );
  }
  io_rates = IoRates();
  return rs;
}
Run tool( const std::string & p, const std::vector<std::string> & a, const Opt & o ) { return group( { { p, a, o } } )[ 0 ]; }
Run must( const std::string & p, const std::vector<std::string> & a, const Opt & o )
{
  Run r = tool( p, a, o );
  if ( !r.ok() ) fail( "step-failed", S( "%s: status %d %s: %s", r.what.c_str(), r.status, r.why.c_str(), tail( r.err ).c_str() ) );
  return r;
}

// ---------- getopt with per-process state (glibc's lives in libc and would be shared) ----------
#include <getopt.h>
extern "C" __attribute__( ( visibility( "default" ) ) ) int getopt_long( int argc, char * const * argv, const char * sh, const option * lo, int * li ) noexcept
{
  // options come first, as in every command line used here
  Node * n = tls_cur ? tls_cur->node : nullptr;
  if ( !n ) return -1;
  if ( optind == 0 ) { optind = 1; n->opt_next = nullptr; }
  if ( !n->opt_next || !*n->opt_next ) {
    if ( optind >= argc || argv[ optind ][ 0 ] != '-' || !argv[ optind ][ 1 ] ) return -1;
    if ( !strcmp( argv[ optind ], "--" ) ) { optind++; return -1; }
    if ( lo && !strncmp( argv[ optind ], "--", 2 ) ) {
      const char * a = argv[ optind++ ] + 2, * eq = strchr( a, '=' ); size_t len = eq ? (size_t) ( eq - a ) : strlen( a );
      for ( int i = 0; lo[ i ].name; i++ ) if ( strlen( lo[ i ].name ) == len && !strncmp( lo[ i ].name, a, len ) ) {
        if ( li ) *li = i;
        if ( lo[ i ].has_arg == required_argument ) { if ( eq ) optarg = (char *) eq + 1; else if ( optind < argc ) optarg = argv[ optind++ ]; else return '?'; }
        if ( lo[ i ].flag ) { *lo[ i ].flag = lo[ i ].val; return 0; }
        return lo[ i ].val;
      }
      return '?';
    }
    n->opt_next = argv[ optind++ ] + 1;
  }
  char c = *n->opt_next++;
  const char * s = c == ':' ? nullptr : strchr( sh, c );
  if ( !s ) return '?';
  if ( s[ 1 ] == ':' ) {
    if ( *n->opt_next ) { optarg = n->opt_next; n->opt_next = nullptr; }
    else if ( optind < argc ) optarg = argv[ optind++ ];
    else return '?';
  }
  return c;
}
extern "C" __attribute__( ( visibility( "default" ) ) ) int getopt( int argc, char * const * argv, const char * sh ) noexcept { return getopt_long( argc, argv, sh, nullptr, nullptr ); }

// ---------- reference ----------
std::vector<Picture> vpx_pictures( const std::vector<Bytes> & frames, bool * ok )
{
  VpxDec d; std::vector<Picture> ps; if ( ok ) *ok = true;
  for ( auto & f : frames ) {
    Picture p; bool shown = false;
    if ( !d.decode( f, &p, &shown ) ) { if ( ok ) *ok = false; return ps; }
    if ( shown ) ps.push_back( std::move( p ) );
  }
  return ps;
}
bool same_pictures( const std::vector<Picture> & a, const std::vector<Picture> & b, std::string * where )
{
  for ( size_t i = 0; i < std::min( a.size(), b.size() ); i++ ) {
    const Picture & x = a[ i ], & y = b[ i ];
    if ( x.w != y.w || x.h != y.h ) { *where = S( "picture %zu has a different size", i ); return false; }
    const Bytes * px[ 3 ] = { &x.y, &x.u, &x.v }, * py[ 3 ] = { &y.y, &y.u, &y.v };
    for ( int k = 0; k < 3; k++ ) for ( size_t j = 0; j < px[ k ]->size(); j++ ) if ( ( *px[ k ] )[ j ] != ( *py[ k ] )[ j ] ) {
      *where = S( "picture %zu differs in plane %d, sample %zu", i, k, j ); return false; }
  }
  if ( a.size() != b.size() ) { *where = S( "%zu pictures instead of %zu", a.size(), b.size() ); return false; }
  return true;
}
static double psnr( const Picture & a, const Picture & b )
{
  double s = 0; for ( size_t i = 0; i < a.y.size(); i++ ) { double d = (double) a.y[ i ] - b.y[ i ]; s += d * d; }
  return s == 0 ? 99 : 10 * log10( 255 * 255 * a.y.size() / s );
}
static Scene scene_of( Rng & g, int maxw = 96 )
{
  Scene s; s.seed = g.next();
  static const int sizes[][ 2 ] = { { 64, 16 }, { 64, 32 }, { 80, 48 }, { 66, 34 }, { 96, 64 }, { 70, 50 }, { 64, 64 }, { 65, 33 }, { 83, 47 } };
  do { int k = g.below( 9 ); s.w = sizes[ k ][ 0 ]; s.h = sizes[ k ][ 1 ]; } while ( s.w > maxw );
  s.noise = (int) g.below( 5 ) * 6; s.hold = 1; s.cut_every = g.chance( 0.3 ) ? 2 + g.below( 4 ) : 0;
  return s;
}

// names of states as printed by xc-decode-bundle
static std::vector<std::string> states( const std::string & err, const char * word )
{
  std::vector<std::string> r; size_t p = 0; std::string key = std::string( " " ) + word + " state: ";
  while ( ( p = err.find( key, p ) ) != std::string::npos ) { p += key.size(); size_t e = err.find( '\n', p ); r.push_back( err.substr( p, e - p ) ); }
  return r;
}
static u32 low32( const std::string & state ) { return (u32) strtoull( state.c_str(), nullptr, 16 ); }
static Run decode_bundle( const std::vector<std::string> & names, const std::string & state = "", Opt o = Opt() )
{
  std::string in; for ( auto & n : names ) in += n + "\n";
  o.in.assign( in.begin(), in.end() );
  std::vector<std::string> a; if ( !state.empty() ) a.push_back( state );
  return tool( "xc-decode-bundle", a, o );
}
// expects two files with the same contents
static void equal_files( const std::string & cls, const std::string & a, const Bytes & want, const std::string & why )
{
  Bytes x = vfs_read( a );
  if ( x == want ) return;
  size_t i = 0; while ( i < x.size() && i < want.size() && x[ i ] == want[ i ] ) i++;
  fail( cls, S( "%s: %s differs at byte %zu (%zu bytes instead of %zu)", why.c_str(), a.c_str(), i, x.size(), want.size() ) );
}
static VpxEncOpt vpx_opt( Rng & g, bool exotic )
{
  VpxEncOpt o; o.q = 8 + g.below( 50 ); o.q_span = 4; o.flags_seed = g.chance( 0.7 ) ? g.next() : 0;
  o.partitions = g.below( 4 ); o.sharpness = g.chance( 0.3 ) ? g.below( 8 ) : 0;
  if ( exotic ) { o.segments = g.chance( 0.5 ); o.kf_every = g.chance( 0.3 ) ? 2 + g.below( 5 ) : 0; o.resilient = g.chance( 0.3 ); if ( g.chance( 0.3 ) ) { o.lag = 3 + g.below( 4 ); o.altref = true; o.flags_seed = 0; } }
  return o;
}

// ---------- C12: chunked encoding ----------
struct C12 {
  Rng g; Scene sc; int n = 0; std::vector<std::vector<Picture>> raw; std::vector<int> first; std::vector<std::string> q;
  C12() : g( h2( W.cfg.seed, 0xc12 ) ) {}
  // runs a worker, perhaps killing it on the way and starting it again over what it left
  // behind, perhaps twice: its outputs must be the same every time
  struct Refused {};
  // a chunk whose frames use segments may be refused, but not turned into something wrong
  void must_or_refuse( const std::string & prog, const std::vector<std::string> & a, bool may_refuse )
  {
    if ( !may_refuse ) { must( prog, a ); return; }
    Run x = tool( prog, a ); if ( x.ok() ) return;
    if ( x.err.empty() ) fail( "step-failed", x.what + ": refused without a message" );
    throw Refused();
  }
  void step( const std::string & prog, const std::vector<std::string> & a, const std::vector<std::string> & outs, bool may_refuse = false )
  {
    u64 m;
    bool again = g.chance( 0.2 );
    int kills = g.chance( 0.3 ) ? 1 + g.below( 2 ) : 0;
    for ( int k = 0; k < kills; k++ ) {
      Opt ko; u64 r = g.next(), r2 = g.next();
      if ( fault( F_NODE_CRASH, 1.0, &m ) ) { if ( r % 4 == 3 ) ko.kill_blk = 1 + r2 % 4000; else { ko.kill_sys = 1 + r2 % ( 40 + 200 * ( r % 3 ) ); ko.torn = ( r >> 8 ) % 2; } }
      Run x = tool( prog, a, ko ); W.counters[ x.killed ? "workers_killed" : "workers_survived" ]++;
      if ( !x.killed && !x.ok() && !may_refuse ) fail( "step-failed", S( "%s: status %d: %s", x.what.c_str(), x.status, tail( x.err ).c_str() ) );
    }
    must_or_refuse( prog, a, may_refuse );
    if ( again ) {
      std::vector<Bytes> b; for ( auto & f : outs ) b.push_back( vfs_read( f ) );
      if ( g.chance( 0.5 ) ) for ( auto & f : outs ) vfs_remove( f );
      u64 ps = alloc_poison_seed; alloc_poison_seed = h2( ps, 991 );
      must( prog, a );
      alloc_poison_seed = ps;
      for ( size_t i = 0; i < outs.size(); i++ ) equal_files( "not-repeatable", outs[ i ], b[ i ], "the same command on the same inputs" );
      W.counters[ "steps_repeated" ]++;
    }
  }
  void run(); void run_();
};
static std::string N( const char * p, int i ) { return p + std::to_string( i ); }
void C12::run() { try { run_(); } catch ( Refused & ) { W.counters[ "segments_refused" ]++; } }
void C12::run_()
{
  sc = scene_of( g );
  n = 2 + g.below( 3 );
  bool extra = g.chance( 0.3 ); // chunks start with the previous chunk's last picture
  int num = 0;
  std::vector<Picture> all;
  raw.resize( n );
  for ( int i = 0; i < n; i++ ) {
    int len = 1 + g.below( 4 );
    if ( extra && i == n - 1 && g.chance( 0.5 ) ) len = 1;
    first.push_back( num );
    for ( int k = 0; k < len; k++ ) { raw[ i ].push_back( sc.make( num++ ) ); all.push_back( raw[ i ].back() ); }
  }
  std::vector<bool> vpx( n, false ), ivf_in( n, false ), segs( n, false );
  std::set<int> as_is; // pictures that rebasing leaves as they were first encoded
  Rng ng( h2( W.cfg.seed, 0xc12b ) ); // later additions
  auto fmt = [ & ]( int i ) { return std::string( ivf_in[ i ] ? "ivf" : "y4m" ); };
  // first pass
  for ( int i = 0; i < n; i++ ) {
    std::vector<Picture> ps = raw[ i ];
    ivf_in[ i ] = ng.chance( 0.15 ); // the input may be a video itself
    auto input = [ & ]( const char * name ) {
      if ( ivf_in[ i ] ) { VpxEncOpt o; o.q = 4; o.q_span = 2; put_file( N( name, i ), ivf_make( sc.w, sc.h, vpx_encode( ps, o ) ) ); }
      else put_file( N( name, i ), y4m_make( ps ) );
    };
    input( "raw" );
    if ( extra && i ) { ps.insert( ps.begin(), raw[ i - 1 ].back() ); }
    input( "src" );
    std::string c = N( "c", i );
    if ( ng.chance( 0.12 ) ) { // modes, motion and reference use that no encoder would choose
      RandFrames r( ng.next(), sc.w, sc.h ); r.always_shown = true; r.no_segments = !ng.chance( i ? 0.1 : 0.5 ); segs[ i ] = !r.no_segments;
      std::vector<Bytes> fs; for ( size_t k = 0; k < ps.size(); k++ ) {
        bool kf = k > size_t( extra ) && ng.chance( 0.15 ); if ( kf ) W.counters[ "key_frames_inside" ]++;
        if ( kf || !i ) as_is.insert( first[ i ] + k - ( extra && i ) );
        fs.push_back( r.make( kf || !k ) );
      }
      put_file( c, ivf_make( sc.w, sc.h, fs ) ); vpx[ i ] = true; W.counters[ "first_pass_odd" ]++;
      q.push_back( "odd" );
    } else if ( g.chance( 0.4 ) ) {
      VpxEncOpt o; o.q = 4 + g.below( 40 ); o.q_span = 2; o.flags_seed = g.chance( 0.6 ) ? g.next() : 0; o.partitions = g.below( 3 ); o.sharpness = g.chance( 0.2 ) ? g.below( 8 ) : 0;
      if ( ng.chance( i ? 0.2 : 0.4 ) ) { o.segments = true; o.segments_from = extra || !i ? ng.below( 2 ) : 1; segs[ i ] = true; W.counters[ "first_pass_segments" ]++; }
      auto fs = vpx_encode( ps, o );
      put_file( c, ivf_make( sc.w, sc.h, fs ) ); vpx[ i ] = true;
      q.push_back( "vpx" );
    } else {
      std::vector<std::string> a{ "-i", fmt( i ), "-o", c };
      if ( ng.chance( 0.15 ) ) a.push_back( "--two-pass" );
      int m = g.below( 3 );
      if ( m == 0 ) { a.push_back( "-y" ); a.push_back( std::to_string( 4 + g.below( 60 ) ) ); }
      else if ( m == 1 ) { a.push_back( "-s" ); a.push_back( S( "%.3f", 0.9 + 0.01 * g.below( 9 ) ) ); }
      else { put_file( N( "sizes", i ), [ & ] { Bytes b; for ( size_t k = 0; k < ps.size(); k++ ) { auto s = std::to_string( 300 + g.below( 2000 ) ) + "\n"; b.insert( b.end(), s.begin(), s.end() ); } return b; }() ); a.push_back( "-F" ); a.push_back( N( "sizes", i ) ); }
      if ( g.chance( 0.5 ) ) { a.push_back( "-q" ); a.push_back( "rt" ); }
      a.push_back( N( "src", i ) );
      step( "xc-enc", a, { c } );
      q.push_back( m == 0 ? "y" : m == 1 ? "s" : "F" );
    }
    Ivf f = ivf_parse( vfs_read( c ) );
    if ( !f.ok || f.truncated || f.frames.size() != ps.size() ) fail( "chunk-wrong", S( "first pass of chunk %d has %zu frames for %zu pictures", i, f.frames.size(), ps.size() ) );
    step( "xc-terminate-chunk", { c, N( "t", i ), N( "p", i ) }, { N( "t", i ), N( "p", i ) } );
    // same pictures, and the state is the one after the last frame of what was written
    Ivf t = ivf_parse( vfs_read( N( "t", i ) ) ); std::string w;
    if ( !t.ok || t.truncated ) fail( "chunk-wrong", "the terminated chunk is not a whole video" );
    if ( !same_pictures( vpx_pictures( t.frames ), vpx_pictures( f.frames ), &w ) ) fail( "terminate-picture", S( "terminating chunk %d changed what it shows: %s", i, w.c_str() ) );
    if ( g.chance( 0.5 ) ) { must( "xc-dump", { N( "t", i ), "dump" } ); equal_files( "state-handover", "dump", vfs_read( N( "p", i ) ), S( "state after terminated chunk %d", i ) ); }
    W.counters[ "chunks" ]++;
  }
  // rebasing
  std::vector<std::string> fin( n ), fst( n );
  fin[ 0 ] = "t0"; fst[ 0 ] = "p0";
  int variant = g.below( 2 );
  auto kfw = [ & ]( std::vector<std::string> & a ) { if ( g.chance( 0.5 ) ) { a.push_back( "-w" ); a.push_back( S( "%.2f", 0.05 * g.below( 21 ) ) ); } };
  auto check_state = [ & ]( const std::string & f, const std::string & from, const std::string & to, const char * what ) {
    must( "xc-dump", { "-S", from, f, "dump" } );
    equal_files( "state-handover", "dump", vfs_read( to ), std::string( "final state written by " ) + what );
    W.counters[ "states_compared" ]++;
  };
  auto good = [ & ]( const std::string & f, int i, const char * what ) {
    Ivf v = ivf_parse( vfs_read( f ) );
    if ( !v.ok || v.truncated || v.frames.size() != raw[ i ].size() ) fail( "chunk-wrong", S( "%s of chunk %d has %zu frames for %zu pictures", what, i, v.frames.size(), raw[ i ].size() ) );
    return v;
  };
  // the choices made for a chunk come from it as it was first encoded or as it was terminated
  auto pred = [ & ]( int i ) { bool t = ng.chance( 0.6 ); W.counters[ t ? "predicted_from_terminated" : "predicted_from_raw" ]++; return N( t ? "t" : "c", i ); };
  bool onward = !extra && ng.chance( 0.25 ); // the last chunk is encoded afresh, starting in its predecessor's final state
  int last = onward ? n - 1 : n;
  if ( variant == 0 ) { // one after another, straight from the first pass
    for ( int i = 1; i < last; i++ ) {
      std::vector<std::string> a{ "-r", "-W", "-i", fmt( i ), "-I", fst[ i - 1 ], "-p", pred( i ), "-o", N( "f", i ), "-O", N( "s", i ) };
      kfw( a ); if ( g.chance( 0.5 ) ) { a.push_back( "-q" ); a.push_back( "rt" ); }
      if ( extra ) a.push_back( "-e" );
      a.push_back( N( "src", i ) );
      if ( extra && ivf_parse( vfs_read( N( "t", i ) ) ).frames.size() > 1 && vp8_header( ivf_parse( vfs_read( N( "t", i ) ) ).frames[ 1 ] ).key ) fail( "chunk-wrong", "key frame inside a chunk" );
      step( "xc-enc", a, { N( "f", i ), N( "s", i ) }, segs[ i ] );
      fin[ i ] = N( "f", i ); fst[ i ] = N( "s", i );
      good( fin[ i ], i, "re-encoding" );
      check_state( fin[ i ], fst[ i - 1 ], fst[ i ], "the re-encoder" );
    }
  } else { // every worker re-encodes on its predecessor's first-pass state, then the chain is rebased
    std::vector<Job> js; std::vector<int> order; for ( int i = 1; i < last; i++ ) order.push_back( i );
    for ( size_t i = order.size(); i > 1; i-- ) std::swap( order[ i - 1 ], order[ g.below( i ) ] );
    for ( int i : order ) {
      std::vector<std::string> a{ "-r", "-W", "-i", fmt( i ), "-I", N( "p", i - 1 ), "-p", pred( i ), "-o", N( "r", i ), "-O", N( "q", i ) };
      kfw( a ); if ( extra ) a.push_back( "-e" );
      a.push_back( N( "src", i ) );
      js.push_back( { "xc-enc", a, Opt() } );
    }
    bool par = g.chance( 0.6 );
    if ( par && js.size() > 1 ) { // several workers at once; some are killed and started again
      W.preempt_gap = 3000; W.preempt_stall_max = 0;
      for ( auto & j : js ) { u64 m; u64 r = g.next(); if ( r % 4 == 0 && fault( F_NODE_CRASH, 1.0, &m ) ) { if ( r & 16 ) j.opt.kill_blk = 1 + ( r >> 8 ) % 4000; else { j.opt.kill_sys = 1 + ( r >> 8 ) % 300; j.opt.torn = r & 32; } } }
      auto rs = group( js );
      W.preempt_gap = 0;
      for ( size_t k = 0; k < rs.size(); k++ ) {
        if ( rs[ k ].killed ) { W.counters[ "workers_killed" ]++; must_or_refuse( js[ k ].prog, js[ k ].args, segs[ order[ k ] ] ); }
        else if ( !rs[ k ].ok() && segs[ order[ k ] ] && rs[ k ].err.size() && rs[ k ].exited ) throw Refused();
        else if ( !rs[ k ].ok() ) fail( "step-failed", S( "%s: status %d %s: %s", rs[ k ].what.c_str(), rs[ k ].status, rs[ k ].why.c_str(), tail( rs[ k ].err ).c_str() ) );
        else if ( g.chance( 0.4 ) ) { // the same alone
          std::string o = N( "r", order[ k ] ), st = N( "q", order[ k ] ); Bytes b = vfs_read( o ), c = vfs_read( st );
          must( js[ k ].prog, js[ k ].args );
          equal_files( "not-repeatable", o, b, "the same command alone and among others" ); equal_files( "not-repeatable", st, c, "the same command alone and among others" );
          W.counters[ "steps_repeated" ]++;
        }
      }
    } else for ( size_t k = 0; k < js.size(); k++ ) step( js[ k ].prog, js[ k ].args, { js[ k ].args[ 9 ], js[ k ].args[ 11 ] }, segs[ order[ k ] ] );
    for ( int i = 1; i < last; i++ ) { good( N( "r", i ), i, "re-encoding" ); check_state( N( "r", i ), N( "p", i - 1 ), N( "q", i ), "the re-encoder" ); }
    if ( last > 1 ) { fin[ 1 ] = "r1"; fst[ 1 ] = "q1"; }
    for ( int i = 2; i < last; i++ ) {
      std::vector<std::string> a{ "-W", "-i", fmt( i ), "-o", N( "f", i ), "-r", "-I", fst[ i - 1 ], "-p", N( "r", i ), "-S", N( "p", i - 1 ), "-O", N( "s", i ) };
      kfw( a ); a.push_back( N( "raw", i ) );
      step( "xc-enc", a, { N( "f", i ), N( "s", i ) } );
      fin[ i ] = N( "f", i ); fst[ i ] = N( "s", i );
      good( fin[ i ], i, "rebasing" );
      check_state( fin[ i ], fst[ i - 1 ], fst[ i ], "the rebasing worker" );
    }
  }
  if ( onward ) {
    int i = n - 1;
    std::vector<std::string> a{ "-i", fmt( i ), "-I", fst[ i - 1 ], "-o", N( "f", i ) };
    if ( ng.chance( 0.5 ) ) { a.push_back( "-y" ); a.push_back( std::to_string( 4 + ng.below( 60 ) ) ); } else { a.push_back( "-s" ); a.push_back( S( "%.3f", 0.9 + 0.01 * ng.below( 9 ) ) ); }
    if ( ng.chance( 0.5 ) ) { a.push_back( "-q" ); a.push_back( "rt" ); }
    a.push_back( N( "raw", i ) );
    step( "xc-enc", a, { N( "f", i ) } );
    fin[ i ] = N( "f", i );
    good( fin[ i ], i, "encoding onward" ); W.counters[ "encoded_onward" ]++;
  }
  // play the result
  bool playable = true;
  if ( playable ) {
    Run r = decode_bundle( fin );
    if ( !r.ok() ) fail( "bundle-refused", S( "the chunks in sequence are refused: %s", tail( r.err ).c_str() ) );
    Y4m y = y4m_parse( r.out );
    if ( !y.ok || y.trailing ) fail( "bundle-output", "decoded stream is not a whole picture stream" );
    std::vector<Bytes> fs; for ( int i = 0; i < n; i++ ) for ( auto & f : ivf_parse( vfs_read( fin[ i ] ) ).frames ) fs.push_back( f );
    bool ok; auto ref = vpx_pictures( fs, &ok ); std::string w;
    if ( !ok ) fail( "bundle-undecodable", "the joined frames are not a valid stream" );
    if ( !same_pictures( y.pics, ref, &w ) ) fail( "bundle-output", "decoded pictures differ from an independent decoder: " + w );
    if ( y.pics.size() != all.size() ) fail( "picture-count", S( "%zu pictures shown for %zu in the input", y.pics.size(), all.size() ) );
    for ( size_t k = 0; k < all.size(); k++ ) {
      double p = psnr( y.pics[ k ], all[ k ] ); int b = barcode_read( y.pics[ k ] );
      W.counters[ "pictures_checked" ]++;
      if ( W.cfg.has( "psnr" ) ) fprintf( stderr, "psnr %zu %.1f barcode %d\n", k, p, b );
      if ( as_is.count( k ) ) continue;
      if ( b != (int) k && p < 30 ) fail( "picture-order", S( "picture %zu of the joined video shows number %d (%.1f dB against its input)", k, b, p ) );
      if ( p < 12 ) fail( "picture-wrong", S( "picture %zu of the joined video is unlike its input (%.1f dB)", k, p ) );
    }
    auto en = states( r.err, "entering" ), ex = states( r.err, "exiting" );
    if ( en.size() != (size_t) n || ex.size() != (size_t) n ) fail( "bundle-output", "state names missing" );
    for ( int i = 1; i < n; i++ ) {
      u32 rec = ivf_parse( vfs_read( fin[ i ] ) ).reserved;
      if ( en[ i ] != ex[ i - 1 ] || rec != low32( ex[ i - 1 ] ) ) fail( "entry-state", S( "chunk %d records entry state %08x but its predecessor ends in %s", i, rec, ex[ i - 1 ].c_str() ) );
    }
    // leaving out a chunk is noticed
    if ( n > 2 && g.chance( 0.5 ) ) {
      int skip = 1 + g.below( n - 2 ); auto l = fin; l.erase( l.begin() + skip );
      Run x = decode_bundle( l );
      if ( x.ok() && ex[ skip ] != en[ skip ] ) fail( "entry-state", S( "chunk %d left out and not noticed", skip ) );
      W.counters[ "gaps_refused" ]++;
    }
  }
}
void scenario_c12() { C12().run(); }

// ---------- C13: faults and exit status ----------
struct ToolCase { std::string prog; std::vector<std::string> args; std::vector<std::string> outs; Bytes in; bool writes_video = false; };
struct Inputs { // a small world of input files
  Scene sc; std::vector<Picture> pics; int k = 0; std::vector<Bytes> files; std::vector<std::string> names;
  void keep( const std::string & n ) { names.push_back( n ); files.push_back( vfs_read( n ) ); }
  void restore() { for ( size_t i = 0; i < names.size(); i++ ) if ( vfs_read( names[ i ] ) != files[ i ] ) put_file( names[ i ], files[ i ] ); }
};
static void prepare( Rng & g, Inputs & I, bool exotic )
{
  I.sc = scene_of( g, 80 );
  int n = 3 + g.below( 4 );
  for ( int i = 0; i < n; i++ ) I.pics.push_back( I.sc.make( i ) );
  I.k = 1 + g.below( n - 1 );
  std::vector<Picture> A( I.pics.begin(), I.pics.begin() + I.k ), B( I.pics.begin() + I.k, I.pics.end() );
  put_file( "raw.y4m", y4m_make( I.pics ) ); put_file( "rawb.y4m", y4m_make( B ) );
  VpxEncOpt o = vpx_opt( g, false ); o.flags_seed = g.chance( 0.5 ) ? g.next() : 0;
  put_file( "a.ivf", ivf_make( I.sc.w, I.sc.h, vpx_encode( A, o ) ) );
  put_file( "b.ivf", ivf_make( I.sc.w, I.sc.h, vpx_encode( B, o ) ) );
  VpxEncOpt x = vpx_opt( g, exotic );
  put_file( "x.ivf", ivf_make( I.sc.w, I.sc.h, vpx_encode( I.pics, x ) ) );
  must( "xc-terminate-chunk", { "a.ivf", "ta.ivf", "sa" } );
  must( "xc-enc", { "-r", "-W", "-i", "y4m", "-I", "sa", "-p", "b.ivf", "-o", "rb.ivf", "-O", "sb", "rawb.y4m" } );
  std::string sz; for ( int i = 0; i < n; i++ ) sz += std::to_string( 200 + g.below( 3000 ) ) + "\n";
  put_file( "sizes", Bytes( sz.begin(), sz.end() ) );
  for ( auto f : { "raw.y4m", "rawb.y4m", "a.ivf", "b.ivf", "x.ivf", "ta.ivf", "sa", "rb.ivf", "sb", "sizes" } ) I.keep( f );
}
static ToolCase pick_case( Rng & g, Inputs & I, bool video_only )
{
  ToolCase c; Bytes raw = vfs_read( "raw.y4m" ), sizes = vfs_read( "sizes" );
  auto rt = [ & ] { if ( g.chance( 0.5 ) ) { c.args.push_back( "-q" ); c.args.push_back( "rt" ); } };
  while ( true ) {
    c = ToolCase(); c.prog = "xc-enc"; c.outs = { "out.ivf" }; c.writes_video = true;
    switch ( g.below( 15 ) ) {
    case 0: c.args = { "-i", "y4m", "-y", std::to_string( 5 + g.below( 100 ) ), "-o", "out.ivf" }; rt(); c.args.push_back( "raw.y4m" ); return c;
    case 1: c.args = { "-i", "y4m", "-s", S( "0.%d", 85 + (int) g.below( 14 ) ), "-o", "out.ivf" }; rt(); c.args.push_back( "raw.y4m" ); return c;
    case 2: c.args = { "-i", "y4m", "-F", "sizes", "-o", "out.ivf" }; rt(); c.args.push_back( "raw.y4m" ); return c;
    case 3: c.args = { "-i", "y4m", "-F", "-", "-o", "out.ivf" }; rt(); c.args.push_back( "raw.y4m" ); c.in = sizes; return c;
    case 4: c.args = { "-y", std::to_string( 5 + g.below( 100 ) ), "-o", "out.ivf" }; rt(); c.args.push_back( "x.ivf" ); return c;
    case 5: c.args = { "-i", "y4m", "-y", std::to_string( 5 + g.below( 100 ) ), "-o", "out.ivf" }; rt(); c.args.push_back( "-" ); c.in = raw; return c;
    case 6: c.args = { "-i", "y4m", "-y", std::to_string( 5 + g.below( 100 ) ), "-o", "out.ivf", "-I", "sa" }; rt(); c.args.push_back( "rawb.y4m" ); return c;
    case 7: c.prog = "xc-terminate-chunk"; c.args = { "x.ivf", "out.ivf", "out.state" }; c.outs = { "out.ivf", "out.state" }; return c;
    case 8: c.args = { "-r", "-W", "-i", "y4m", "-I", "sa", "-p", "b.ivf", "-o", "out.ivf", "-O", "out.state", "rawb.y4m" }; c.outs = { "out.ivf", "out.state" }; return c;
    case 9: c.args = { "-r", "-i", "y4m", "-I", "sa", "-p", "rb.ivf", "-S", "sa", "-o", "out.ivf", "-O", "out.state", "rawb.y4m" }; c.in = { 'x', 'y' }; c.outs = { "out.ivf", "out.state" }; return c;
    case 10: c.prog = "xc-merge"; c.args = { "a.ivf", "b.ivf", "out.ivf" }; return c;
    case 11: c.prog = "xc-zero-out-residues"; c.args = { g.chance( 0.5 ) ? "a.ivf" : "x.ivf", "out.ivf" }; return c;
    }
    if ( video_only ) continue;
    c.writes_video = false;
    switch ( g.below( 5 ) ) {
    case 0: c.prog = "xc-dump"; c.args = { "x.ivf", "out.state" }; if ( g.chance( 0.5 ) ) c.args = { "-f", "1", "x.ivf", "out.state" }; c.outs = { "out.state" }; return c;
    case 1: c.prog = "xc-dump"; c.args = { "-S", "sa", "rb.ivf", "out.state" }; c.outs = { "out.state" }; return c;
    case 2: { c.prog = "xc-decode-bundle"; std::string s = "ta.ivf\nrb.ivf\n"; c.in.assign( s.begin(), s.end() ); if ( g.chance( 0.4 ) ) { c.args = { "sa" }; c.in.assign( s.begin() + 7, s.end() ); } c.outs = {}; return c; }
    case 3: c.prog = "vp8decode"; c.args = { "-o", "out.y4m", "a.ivf" }; c.outs = { "out.y4m" }; return c;
    case 4: c.prog = "vp8decode"; c.args = { "-s", "sa", "-o", "out.y4m", "rb.ivf" }; c.outs = { "out.y4m" }; return c;
    }
  }
}
static Bytes junk( Rng & g, size_t n ) { Bytes b( n ); for ( auto & x : b ) x = g.next(); return b; }
struct Base { std::vector<Bytes> outs; Bytes out; u64 syscalls = 0, blocks = 0; };
static Base baseline( const ToolCase & c )
{
  for ( auto & o : c.outs ) vfs_remove( o );
  Opt o; o.in = c.in; Run r = must( c.prog, c.args, o );
  Base b; b.out = r.out; b.syscalls = r.node->syscalls; b.blocks = r.node->blocks;
  for ( auto & f : c.outs ) { if ( !vfs_exists( f ) ) fail( "output-missing", r.what + ": no " + f ); b.outs.push_back( vfs_read( f ) ); }
  return b;
}
void scenario_c13()
{
  Rng g( h2( W.cfg.seed, 0xc13 ) );
  Inputs I; prepare( g, I, true );
  int cases = 4;
  for ( int ci = 0; ci < cases; ci++ ) {
    ToolCase c = pick_case( g, I, false );
    Base b = baseline( c );
    for ( int k = 0; k < 6; k++ ) {
      I.restore();
      for ( size_t i = 0; i < c.outs.size(); i++ ) { vfs_remove( c.outs[ i ] ); if ( g.chance( 0.4 ) ) put_file( c.outs[ i ], g.chance( 0.5 ) ? junk( g, b.outs[ i ].size() + g.below( 3000 ) ) : b.outs[ i ] ); }
      Opt o; o.in = c.in; o.io = true; IoRates & r = o.rates; double p = 1.5 / std::max<u64>( b.syscalls, 8 );
      int kind = g.below( 12 ); bool harmless = false; double wr = std::max( p, 0.03 );
      W.alloc_fail_p = 0;
      switch ( kind ) {
      case 0: r.sread = r.swrite = 0.1 + 0.6 * g.unit(); harmless = true; break;
      case 1: r.eread = p; break;
      case 2: r.ewrite = wr; break;
      case 3: r.enospc = wr; break;
      case 4: r.open = 0.3; break;
      case 5: r.mmap = std::max( p, 0.05 ); break;
      case 6: r.stat = std::max( p, 0.05 ); break;
      case 7: r.close = 0.3; break;
      case 8: r.eintr = p; break;
      case 9: r.enospc = wr; r.swrite = 0.3; break;
      case 10: r.eread = r.ewrite = r.mmap = r.eintr = r.close = p / 2; r.sread = r.swrite = 0.2; break;
      case 11: W.alloc_fail_p = 0.02 * g.unit() * g.unit(); break;
      }
      u64 f0 = fault_total();
      Run x = tool( c.prog, c.args, o );
      W.alloc_fail_p = 0;
      bool hit = fault_total() != f0;
      W.counters[ hit ? "runs_with_faults" : "runs_without_faults" ]++;
      if ( x.ok() ) {
        W.counters[ "successes_compared" ]++;
        if ( x.out != b.out ) fail( "success-but-wrong", S( "%s: exit status 0, but standard output has %zu bytes instead of %zu%s", x.what.c_str(), x.out.size(), b.out.size(), x.out.size() == b.out.size() ? " (other contents)" : "" ) );
        for ( size_t i = 0; i < c.outs.size(); i++ ) equal_files( "success-but-wrong", c.outs[ i ], b.outs[ i ], x.what + ": exit status 0" );
      } else {
        W.counters[ "failures_reported" ]++;
        if ( harmless ) fail( "short-transfer-fatal", S( "%s fails (%d %s) although reads and writes were only split: %s", x.what.c_str(), x.status, x.why.c_str(), tail( x.err ).c_str() ) );
        if ( !hit ) fail( "not-repeatable", S( "%s failed without any fault: %s", x.what.c_str(), tail( x.err ).c_str() ) );
      }
    }
  }
}

// ---------- C14: what a stopped writer leaves behind ----------
static void check_leftover( const ToolCase & c, const Bytes & want, const std::string & how )
{
  Bytes got = vfs_read( "out.ivf" );
  if ( !vfs_exists( "out.ivf" ) || got.size() < 32 ) { W.counters[ "leftovers_not_yet_video" ]++; return; }
  Ivf v = ivf_parse( got ), w = ivf_parse( want );
  if ( !v.ok ) fail( "leftover-invalid", c.prog + " " + how + ": the file is long enough for a video header but has none" );
  Bytes h = v.header, hw = w.header; for ( int i = 24; i < 32; i++ ) h[ i ] = hw[ i ] = 0;
  if ( h != hw ) fail( "leftover-invalid", c.prog + " " + how + ": header differs" );
  if ( v.truncated || v.claimed != v.frames.size() ) fail( "leftover-torn", S( "%s %s: the file claims %u frames but holds %zu whole ones", c.prog.c_str(), how.c_str(), v.claimed, v.frames.size() ) );
  if ( v.frames.size() > w.frames.size() ) fail( "leftover-torn", S( "%s %s: claims more frames than the undisturbed output", c.prog.c_str(), how.c_str() ) );
  for ( size_t i = 0; i < v.frames.size(); i++ ) if ( v.frames[ i ] != w.frames[ i ] ) fail( "leftover-differs", S( "%s %s: frame %zu differs from the undisturbed output", c.prog.c_str(), how.c_str(), i ) );
  if ( v.frames.size() && v.reserved != w.reserved ) fail( "leftover-entry-state", S( "%s %s: %zu frames, entry state %08x instead of %08x", c.prog.c_str(), how.c_str(), v.frames.size(), v.reserved, w.reserved ) );
  W.counters[ "leftovers_checked" ]++; if ( v.frames.size() && v.frames.size() < w.frames.size() ) W.counters[ "leftovers_partial" ]++;
}
void scenario_c14()
{
  Rng g( h2( W.cfg.seed, 0xc14 ) );
  Inputs I; prepare( g, I, true );
  for ( int ci = 0; ci < 3; ci++ ) {
    ToolCase c = pick_case( g, I, true );
    Base b = baseline( c );
    for ( int k = 0; k < 10; k++ ) {
      I.restore();
      bool old = g.chance( 0.3 );
      for ( auto & f : c.outs ) { vfs_remove( f ); }
      if ( old ) put_file( "out.ivf", g.chance( 0.5 ) ? junk( g, b.outs[ 0 ].size() + g.below( 3000 ) ) : b.outs[ 0 ] );
      Opt o; o.in = c.in; u64 m, r = g.next(), r2 = g.next(); std::string how; bool killed = false;
      int kind = g.below( 5 );
      if ( kind < 3 ) { if ( fault( F_NODE_CRASH, 1.0, &m ) ) { killed = true;
          // the interesting moments are around the writes: aim at calls and at instrumented code alike
          if ( kind == 0 ) { o.kill_sys = 1 + r % b.syscalls; how = "killed at a system call"; }
          else if ( kind == 1 ) { o.kill_sys = 1 + r % b.syscalls; o.torn = true; how = "killed inside a write"; }
          else { o.kill_blk = 1 + r % std::max<u64>( b.blocks, 1 ); how = "killed between system calls"; } } }
      else { o.io = true; how = "stopped by an I/O error"; double p = 2.0 / b.syscalls;
        switch ( r2 % 5 ) { case 0: o.rates.ewrite = std::max( p, 0.05 ); break; case 1: o.rates.enospc = std::max( p, 0.05 ); o.rates.swrite = 0.3; break; case 2: o.rates.mmap = std::max( p, 0.08 ); break; case 3: o.rates.eread = p; break; case 4: o.rates.eintr = p; o.rates.swrite = 0.2; break; } }
      Run x = tool( c.prog, c.args, o );
      W.counters[ x.killed ? "killed" : x.ok() ? "finished" : "stopped_by_error" ]++;
      // a file left over from before, which the program never got to open, says nothing about it
      if ( old && vfs_read( "out.ivf" ).size() >= 32 && x.node->opened.count( "out.ivf" ) == 0 ) continue;
      if ( old && x.node->opened.count( "out.ivf" ) == 0 ) continue;
      check_leftover( c, b.outs[ 0 ], how );
      if ( x.ok() && vfs_read( "out.ivf" ) != b.outs[ 0 ] ) fail( "leftover-differs", x.what + ": finished, but the output differs" );
      if ( vfs_exists( "out.ivf" ) && vfs_read( "out.ivf" ).size() >= 32 ) {
        Run y = tool( "xc-framesize", { "out.ivf" } );
        if ( !y.ok() ) fail( "leftover-unreadable", S( "%s %s: the project's own reader refuses what is left: %s", c.prog.c_str(), how.c_str(), tail( y.err ).c_str() ) );
        size_t lines = std::count( y.out.begin(), y.out.end(), (u8) 10 ) - 1, want = ivf_parse( vfs_read( "out.ivf" ) ).frames.size();
        if ( lines != want ) fail( "leftover-unreadable", S( "%s %s: the project's own reader sees %zu frames of %zu", c.prog.c_str(), how.c_str(), lines, want ) );
      }
      if ( !x.ok() && g.chance( 0.25 ) ) { // started again over what is left
        Opt n; n.in = c.in; Run y = must( c.prog, c.args, n );
        for ( size_t i = 0; i < c.outs.size(); i++ ) equal_files( "rerun-differs", c.outs[ i ], b.outs[ i ], c.prog + " started again over the leftover" );
        W.counters[ "reruns" ]++;
      }
      (void) killed;
    }
  }
}

// ---------- C17 for the tools ----------
#include <unistd.h>
extern std::string g_build_dir;
static bool program_exists( const std::string & p ) { return syscall( 269 /* faccessat */, -100, ( g_build_dir + "/" + p + ".so" ).c_str(), 0 ) == 0; }
// the same encodings alone in order, and in other orders, side by side, among others, under seeded schedules
static void scenario_encodings( Rng & g )
{
  W.clock_points = true;
  for ( int set = 0; set < 2; set++ ) {
    std::vector<std::string> args{ S( "%lu", g.next() >> 1 ), S( "%lu", 16 + g.below( 100 ) ), S( "%lu", 16 + g.below( 80 ) ), "0" };
    W.preempt_gap = 0; W.thread_start_cost = nullptr;
    Run base = must( "encodings", args );
    for ( int k = 0; k < 3; k++ ) {
      if ( g.chance( 0.8 ) ) { static const u64 gaps[] = { 400, 4000, 40000, 200000 }; W.preempt_gap = gaps[ g.below( 4 ) ]; W.hot_weight = 1 + g.below( 3 ) * 100; } else W.preempt_gap = 0;
      args[ 3 ] = S( "%lu", 1 + g.below( 1000000 ) );
      u64 ps = alloc_poison_seed; if ( g.chance( 0.5 ) ) alloc_poison_seed = h2( ps, 31 + k );
      Run r = must( "encodings", args );
      alloc_poison_seed = ps;
      if ( r.out != base.out ) {
        std::string a( base.out.begin(), base.out.end() ), b( r.out.begin(), r.out.end() ); size_t i = std::mismatch( a.begin(), a.begin() + std::min( a.size(), b.size() ), b.begin() ).first - a.begin();
        size_t l = a.rfind( '\n', i ? i - 1 : 0 ); l = l == std::string::npos ? 0 : l + 1;
        fail( "schedule-dependent", r.what + ": alone in order " + a.substr( l, a.find( '\n', l ) - l ) + "; otherwise " + b.substr( l, b.find( '\n', l ) - l ) );
      }
      W.counters[ "encodings_compared" ] += std::count( r.out.begin(), r.out.end(), '\n' );
    }
  }
}
void scenario_c17_tools()
{
  Rng g( h2( W.cfg.seed, 0x17 ) );
  if ( g.chance( 0.6 ) && program_exists( "encodings" ) ) { scenario_encodings( g ); return; }
  Inputs I; prepare( g, I, true );
  for ( int ci = 0; ci < 4; ci++ ) {
    ToolCase c = pick_case( g, I, false ); Base b = baseline( c );
    for ( int k = 0; k < 2; k++ ) {
      I.restore(); for ( auto & o : c.outs ) vfs_remove( o );
      u64 ps = alloc_poison_seed; alloc_poison_seed = h2( ps, 31 + k );
      Opt o; o.in = c.in; if ( k ) { o.io = true; o.rates.sread = o.rates.swrite = 0.3; }
      Run x = must( c.prog, c.args, o );
      alloc_poison_seed = ps;
      if ( x.out != b.out ) fail( "schedule-dependent", x.what + ": the same run again gives another standard output" );
      for ( size_t i = 0; i < c.outs.size(); i++ ) equal_files( "schedule-dependent", c.outs[ i ], b.outs[ i ], x.what + ": the same run again" );
      W.counters[ "frames_compared" ]++; W.counters[ "tool_reruns_compared" ]++;
    }
  }
}
#include "tools2.inc"
#include "tools3.inc"

void scenario_tools()
{
  std::string p = W.cfg.prop;
  W.sticky = 0.5;
  try {
    if ( p == "C12" ) scenario_c12(); else if ( p == "C13" ) scenario_c13(); else if ( p == "C14" ) scenario_c14(); else if ( p == "C15" ) scenario_c15(); else if ( p == "C19" ) scenario_c19(); else if ( p == "C20" ) scenario_c20(); else if ( p == "C21" ) scenario_c21(); else if ( p == "C22" ) scenario_c22();
    else if ( p == "C16" ) scenario_c16(); else if ( p == "C17" ) scenario_c17_tools(); else if ( p == "C18" ) scenario_c18();
  } catch ( const Abort & ) {}
}
void finish_tools() {}
