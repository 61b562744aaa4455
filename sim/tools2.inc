// ---------- C15: saved state ----------
static std::vector<Picture> pictures_of( const Run & r, const char * cls )
{
  if ( r.out.empty() ) return {};
  Y4m y = y4m_parse( r.out );
  if ( !y.ok || y.trailing ) fail( cls, r.what + ": the decoded stream is not whole" );
  return y.pics;
}
struct StateFile { // where things are in a state file
  bool ok = false; size_t prob = 0, prob_len = 0, seg = 0, seg_len = 0, lf = 0, lf_len = 0, refs = 0, refs_len = 0; bool has_seg = false, has_lf = false;
  explicit StateFile( const Bytes & b )
  {
    auto l = [ & ]( size_t p ) -> size_t { return p + 4 <= b.size() ? b[ p ] | b[ p + 1 ] << 8 | b[ p + 2 ] << 16 | (u32) b[ p + 3 ] << 24 : b.size(); };
    size_t p = 14; if ( b.size() < 30 ) return;
    prob = p; prob_len = 5 + l( p + 1 ); p += prob_len; if ( p >= b.size() ) return;
    seg = p; has_seg = b[ p ] == 6; p++; if ( has_seg ) p += 5 + l( p + 1 ); seg_len = p - seg; if ( p >= b.size() ) return;
    lf = p; has_lf = b[ p ] == 6; p++; if ( has_lf ) p += 5 + l( p + 1 ); lf_len = p - lf; if ( p >= b.size() ) return;
    refs = p; refs_len = b.size() - p; ok = true;
  }
};
static size_t shown( const std::vector<Bytes> & f ) { size_t n = 0; for ( auto & x : f ) n += vp8_header( x ).show; return n; }
// pictures of frames decoded in one go
static std::vector<Picture> continuous( const std::vector<Bytes> & f )
{
  Ivf h = ivf_parse( vfs_read( "t" ) );
  put_file( "one", ivf_make( h.w, h.h, f ) );
  Run r = decode_bundle( { "one" } );
  if ( !r.ok() ) fail( "resume-refused", "a valid stream is refused: " + tail( r.err ) );
  return pictures_of( r, "resume-output" );
}
static CtlFrame random_ctl( Rng & g, const Scene & sc, bool seg, bool lf, bool buffers )
{
  CtlFrame c; c.w = sc.w; c.h = sc.h; c.seg = seg; c.lf = lf; c.keep = true;
  int n = ( ( sc.w + 15 ) / 16 ) * ( ( sc.h + 15 ) / 16 );
  int k = g.below( 3 ); for ( int i = 0; i < k; i++ ) c.coef[ g.below( 1056 ) ] = 1 + g.below( 255 );
  if ( g.chance( 0.3 ) ) c.mv[ g.below( 38 ) ] = g.below( 128 );
  if ( g.chance( 0.3 ) ) for ( int i = 0; i < 4; i++ ) c.ymode.push_back( 1 + g.below( 255 ) );
  if ( g.chance( 0.3 ) ) for ( int i = 0; i < 3; i++ ) c.uvmode.push_back( 1 + g.below( 255 ) );
  if ( seg && g.chance( 0.6 ) ) { c.seg_data = true; c.seg_abs = g.chance( 0.5 ); for ( auto & v : c.seg_q ) v = (int) g.below( c.seg_abs ? 60 : 41 ) - ( c.seg_abs ? 0 : 20 ); for ( auto & v : c.seg_lf ) v = (int) g.below( c.seg_abs ? 60 : 41 ) - ( c.seg_abs ? 0 : 20 ); }
  if ( seg && g.chance( 0.6 ) ) for ( int i = 0; i < n; i++ ) c.map.push_back( g.below( 4 ) );
  if ( lf && g.chance( 0.6 ) ) { c.lf_upd = true; for ( auto & v : c.lf_ref ) v = (int) g.below( 61 ) - 30; for ( auto & v : c.lf_mode ) v = (int) g.below( 61 ) - 30; }
  if ( buffers ) { c.copy_g = g.below( 3 ); c.copy_a = c.copy_g == 2 ? g.below( 2 ) : g.below( 3 ); }
  return c;
}
// the pictures a player puts on the screen
struct Drawn {
  std::vector<Picture> pics;
  Drawn() { on_display_draw = [ this ]( Node *, const Picture & p ) { pics.push_back( p ); }; }
  ~Drawn() { on_display_draw = nullptr; }
};
struct C15 {
  Rng g; Scene sc; std::vector<Bytes> t, rest; u32 name = 0; bool seg = false, lf = false;
  C15() : g( h2( W.cfg.seed, 0xc15 ) ) {}
  Opt calm() { Opt o; if ( g.chance( 0.3 ) ) { o.io = true; o.rates.sread = o.rates.swrite = 0.3 * g.unit(); } return o; }
  Bytes rest_file( u32 hash ) { return ivf_make( sc.w, sc.h, rest, hash ); }
  void resume(); void wrong( const std::string & st, const char * what, bool tell ); void twins();
  std::vector<Picture> tail_ref; std::string rest_exit; Bytes rest_dump;
};
// The stream goes on from the saved state: by every tool that can, perhaps with a crash on the way.
void C15::resume()
{
  auto crash = [ & ]( const std::string & p, const std::vector<std::string> & a, const Bytes & in ) {
    u64 m, r = g.next(), r2 = g.next();
    if ( r % 4 == 0 && fault( F_NODE_CRASH, 1.0, &m ) ) { Opt o; o.in = in; if ( r & 16 ) o.kill_blk = 1 + r2 % 3000; else o.kill_sys = 1 + r2 % 60; o.torn = r & 32; Run x = tool( p, a, o ); W.counters[ x.killed ? "killed" : "not_killed" ]++; }
  };
  std::string w;
  Run r1 = decode_bundle( { "t", "rest" }, "", calm() );
  if ( !r1.ok() ) fail( "resume-refused", S( "the chunk and its continuation in one session: %s", tail( r1.err ).c_str() ) );
  auto p1 = pictures_of( r1, "resume-output" );
  std::vector<Bytes> all = t; all.insert( all.end(), rest.begin(), rest.end() );
  auto ref = continuous( all ); size_t head = shown( t );
  if ( ref.size() != shown( all ) ) fail( "resume-picture", S( "%zu pictures for %zu shown frames", ref.size(), shown( all ) ) );
  tail_ref.assign( ref.begin() + head, ref.end() );
  if ( !same_pictures( p1, ref, &w ) ) fail( "resume-picture", "the chunk and its continuation as two files and as one: " + w );
  auto ex1 = states( r1.err, "exiting" ), en1 = states( r1.err, "entering" );
  if ( ex1.size() != 2 || en1.size() != 2 ) fail( "resume-output", "state names missing" );
  crash( "xc-decode-bundle", { "st" }, Bytes{ 'r', 'e', 's', 't', '\n' } );
  Run r2 = decode_bundle( { "rest" }, "st", calm() );
  if ( !r2.ok() ) fail( "resume-refused", S( "xc-decode-bundle from the saved state: %s", tail( r2.err ).c_str() ) );
  if ( !same_pictures( pictures_of( r2, "resume-output" ), tail_ref, &w ) ) fail( "resume-picture", "xc-decode-bundle from the saved state: " + w );
  auto ex2 = states( r2.err, "exiting" ), en2 = states( r2.err, "entering" );
  if ( ex2.size() != 1 || en2.size() != 1 ) fail( "resume-output", "state names missing" );
  if ( en2[ 0 ] != en1[ 1 ] ) fail( "resume-name", S( "state loaded from the file is called %s, the one that was saved %s", en2[ 0 ].c_str(), en1[ 1 ].c_str() ) );
  if ( ex2[ 0 ] != ex1[ 1 ] ) fail( "resume-name", S( "state at the end is called %s after resuming and %s without a stop", ex2[ 0 ].c_str(), ex1[ 1 ].c_str() ) );
  rest_exit = ex1[ 1 ];
  crash( "vp8decode", { "-s", "st", "-o", "o.y4m", "rest" }, {} ); vfs_remove( "o.y4m" );
  if ( !vp8_header( rest.back() ).show ) { } // vp8decode does not support a hidden frame at the end
  else {
    must( "vp8decode", { "-s", "st", "-o", "o.y4m", "rest" }, calm() );
    Run f; f.out = vfs_read( "o.y4m" ); f.what = "vp8decode";
    if ( !same_pictures( pictures_of( f, "resume-output" ), tail_ref, &w ) ) fail( "resume-picture", "vp8decode from the saved state: " + w );
    if ( g.chance( 0.4 ) ) {
      Drawn d; must( "vp8play", { "rest", "st" }, calm() );
      if ( !same_pictures( d.pics, tail_ref, &w ) ) fail( "resume-picture", "vp8play from the saved state: " + w );
    }
  }
  // saving what was loaded
  put_file( "noop", ivf_make( sc.w, sc.h, { vp8_noop_frame( sc.w, sc.h, seg, lf ) }, g.chance( 0.5 ) ? name : 0 ) );
  crash( "xc-dump", { "-S", "st", "noop", "again" }, {} );
  must( "xc-dump", { "-S", "st", "noop", "again" }, calm() );
  equal_files( "reload-differs", "again", vfs_read( "st" ), "a state that was loaded and saved" );
  // the state after a later frame is the same with and without the stop (as far as a file holds it)
  all.resize( t.size() + 1 + g.below( rest.size() ) );
  put_file( "whole", ivf_make( sc.w, sc.h, all ) );
  must( "xc-dump", { "whole", "d1" }, calm() );
  must( "xc-dump", { "-S", "st", "-f", std::to_string( all.size() - t.size() - 1 ), "rest", "d2" }, calm() );
  equal_files( "resume-state", "d2", vfs_read( "d1" ), "state after resuming" );
  must( "xc-dump", { "-S", "st", "rest", "d3" } ); rest_dump = vfs_read( "d3" );
  W.counters[ "resumes" ]++; W.counters[ "pictures_checked" ] += tail_ref.size() * 3;
}
// Continuing from another state: refused before any picture, unless nothing that follows differs.
void C15::wrong( const std::string & st, const char * what, bool tell )
{
  std::string w; int k = g.below( 5 );
  auto refused = [ & ]( const Run & x, bool any, bool same ) {
    W.counters[ x.ok() ? "wrong_state_harmless" : "wrong_state_refused" ]++;
    if ( x.ok() && !same ) fail( "wrong-state-used", S( "%s with %s: exit status 0 and other results", x.what.c_str(), what ) );
    if ( x.ok() && tell ) fail( "wrong-state-used", S( "%s with %s: not refused", x.what.c_str(), what ) );
    if ( !x.ok() && any ) fail( "refused-late", S( "%s with %s: refused only after producing output", x.what.c_str(), what ) );
    if ( !x.ok() && x.err.empty() ) fail( "refused-silently", S( "%s with %s: no message", x.what.c_str(), what ) );
  };
  if ( k < 2 ) {
    Run x = decode_bundle( { "rest" }, st );
    Y4m y = y4m_parse( x.out );
    refused( x, y.pics.size() > 0, y.ok && same_pictures( y.pics, tail_ref, &w ) );
  } else if ( k == 2 ) {
    if ( g.chance( 0.4 ) ) {
      Drawn d; Run x = tool( "vp8play", { "rest", st } );
      if ( !x.ok() && d.pics.size() && x.err.find( "hidden frames at end" ) != std::string::npos ) return;
      refused( x, d.pics.size() > 0, same_pictures( d.pics, tail_ref, &w ) ); return;
    }
    vfs_remove( "o.y4m" );
    Run x = tool( "vp8decode", { "-s", st, "-o", "o.y4m", "rest" } ); Y4m y = y4m_parse( vfs_read( "o.y4m" ) );
    if ( !x.ok() && y.pics.size() && x.err.find( "hidden frames at end" ) != std::string::npos ) return;
    refused( x, y.pics.size() > 0, y.ok && same_pictures( y.pics, tail_ref, &w ) );
  } else if ( k == 3 ) {
    vfs_remove( "d4" );
    Run x = tool( "xc-dump", { "-S", st, "rest", "d4" } );
    refused( x, vfs_exists( "d4" ), tail_ref.size() && vfs_read( "d4" ) == rest_dump );
  } else {
    put_file( "few.y4m", y4m_make( std::vector<Picture>( rest.size(), sc.make( 3 ) ) ) );
    bool key = false; for ( size_t i = 1; i < rest.size(); i++ ) key |= vp8_header( rest[ i ] ).key;
    for ( auto & f : rest ) if ( !vp8_header( f ).show ) key = true;
    if ( key || seg ) { vfs_remove( "o.ivf" ); Run x = tool( "xc-enc", { "-r", "-W", "-i", "y4m", "-I", "st", "-p", "rest", "-S", st, "-o", "o.ivf", "few.y4m" } ); Ivf v = ivf_parse( vfs_read( "o.ivf" ) ); if ( tell ) refused( x, v.frames.size() > 0, false ); return; }
    vfs_remove( "o.ivf" ); Run b = tool( "xc-enc", { "-r", "-W", "-i", "y4m", "-I", "st", "-p", "rest", "-S", "st", "-o", "o.ivf", "few.y4m" } );
    if ( !b.ok() ) { W.counters[ "reencode_unsupported" ]++; return; }
    Bytes want = vfs_read( "o.ivf" ); vfs_remove( "o.ivf" );
    Run x = tool( "xc-enc", { "-r", "-W", "-i", "y4m", "-I", "st", "-p", "rest", "-S", st, "-o", "o.ivf", "few.y4m" } );
    Ivf v = ivf_parse( vfs_read( "o.ivf" ) );
    refused( x, v.frames.size() > 0, vfs_read( "o.ivf" ) == want );
  }
}
// Two states that differ in one thing: if what follows shows it, their names differ and the
// continuation of one is refused after the other.
void C15::twins()
{
  CtlFrame a = random_ctl( g, sc, seg, lf, true ), b = a;
  int n = ( ( sc.w + 15 ) / 16 ) * ( ( sc.h + 15 ) / 16 ); const char * what = "";
  std::vector<int> kinds{ 0, 1, 2, 3, 4, 5 }; if ( seg ) { kinds.push_back( 6 ); kinds.push_back( 7 ); kinds.push_back( 8 ); kinds.push_back( 9 ); } if ( lf ) { kinds.push_back( 10 ); kinds.push_back( 11 ); }
  int kind = kinds[ g.below( kinds.size() ) ];
  switch ( kind ) {
  case 0: { int i = g.below( 1056 ); a.coef[ i ] = 1 + g.below( 255 ); b.coef[ i ] = 1 + g.below( 255 ); what = "a coefficient probability"; break; }
  case 1: { int i = g.below( 38 ); a.mv[ i ] = g.below( 128 ); b.mv[ i ] = g.below( 128 ); what = "a motion vector probability"; break; }
  case 2: for ( int i = 0; i < 4; i++ ) { if ( a.ymode.size() < 4 ) { a.ymode.push_back( 1 + g.below( 255 ) ); } } b.ymode = a.ymode; b.ymode[ g.below( 4 ) ] = 1 + g.below( 255 ); what = "a luma mode probability"; break;
  case 3: for ( int i = 0; i < 3; i++ ) { if ( a.uvmode.size() < 3 ) { a.uvmode.push_back( 1 + g.below( 255 ) ); } } b.uvmode = a.uvmode; b.uvmode[ g.below( 3 ) ] = 1 + g.below( 255 ); what = "a chroma mode probability"; break;
  case 4: a.copy_g = 0; b.copy_g = 1; a.copy_a = b.copy_a = 0; what = "the golden picture"; break;
  case 5: if ( g.chance( 0.5 ) ) { a.copy_a = 0; b.copy_a = 1; a.copy_g = b.copy_g = 0; what = "the alternate picture"; } else { a.copy_g = 1; a.copy_a = 0; b.copy_g = 0; b.copy_a = 1; what = "golden and alternate pictures exchanged"; } break;
  case 6: a.seg_data = b.seg_data = true; a.seg_q[ 0 ] = 1; b = a; b.seg_q[ g.below( 4 ) ] += 5 + g.below( 20 ); what = "a segment's quantizer"; break;
  case 7: a.seg_data = b.seg_data = true; b = a; b.seg_lf[ g.below( 4 ) ] += 5 + g.below( 20 ); what = "a segment's filter level"; break;
  case 8: a.map.clear(); for ( int i = 0; i < n; i++ ) a.map.push_back( g.below( 4 ) ); b = a; b.map[ g.below( n ) ] ^= 1 + g.below( 3 ); what = "a macroblock's segment"; break;
  case 9: a.seg_data = true; a.seg_abs = true; b = a; for ( int i = 0; i < 4; i++ ) { a.seg_q[ i ] = b.seg_q[ i ] = g.below( 20 ); a.seg_lf[ i ] = b.seg_lf[ i ] = g.below( 20 ); } b.seg_abs = false; what = "absolute segment values"; break;
  case 10: a.lf_upd = true; b = a; b.lf_ref[ g.below( 4 ) ] += 10 + g.below( 20 ); what = "a reference filter delta"; break;
  case 11: a.lf_upd = true; b = a; b.lf_mode[ g.below( 4 ) ] += 10 + g.below( 20 ); what = "a mode filter delta"; break;
  }
  if ( g.chance( 0.45 ) ) { // the same values in other places
    auto mix = [ & ]( auto * va, auto * vb, size_t len, const char * names ) {
      for ( int tries = 0; tries < 40; tries++ ) {
        size_t i = g.below( len ), j = g.below( len );
        if ( va[ i ] == va[ j ] ) continue;
        std::copy( va, va + len, vb ); std::swap( vb[ i ], vb[ j ] );
        if ( len <= 4 && g.chance( 0.2 ) ) std::reverse_copy( va, va + len, vb );
        what = names; W.counters[ "twins_exchanged" ]++; return;
      }
    };
    switch ( kind ) {
    case 0: { int i = g.below( 1056 ), j = g.below( 1056 ); int x = 1 + g.below( 255 ), y = 1 + g.below( 255 ); if ( i == j ) break; b = a; a.coef[ i ] = b.coef[ j ] = x; a.coef[ j ] = b.coef[ i ] = y; what = "two coefficient probabilities exchanged"; W.counters[ "twins_exchanged" ]++; break; }
    case 1: { int i = g.below( 38 ), j = g.below( 38 ); int x = g.below( 128 ), y = g.below( 128 ); if ( i == j ) break; b = a; a.mv[ i ] = b.mv[ j ] = x; a.mv[ j ] = b.mv[ i ] = y; what = "two motion vector probabilities exchanged"; W.counters[ "twins_exchanged" ]++; break; }
    case 2: mix( &a.ymode[ 0 ], &b.ymode[ 0 ], 4, "two luma mode probabilities exchanged" ); break;
    case 3: mix( &a.uvmode[ 0 ], &b.uvmode[ 0 ], 3, "two chroma mode probabilities exchanged" ); break;
    case 6: mix( &a.seg_q[ 0 ], &b.seg_q[ 0 ], 4, "the quantizers of two segments exchanged" ); break;
    case 7: mix( &a.seg_lf[ 0 ], &b.seg_lf[ 0 ], 4, "the filter levels of two segments exchanged" ); break;
    case 8: mix( &a.map[ 0 ], &b.map[ 0 ], n, "the segments of two macroblocks exchanged" ); break;
    case 10: mix( &a.lf_ref[ 0 ], &b.lf_ref[ 0 ], 4, "two reference filter deltas exchanged" ); break;
    case 11: mix( &a.lf_mode[ 0 ], &b.lf_mode[ 0 ], 4, "two mode filter deltas exchanged" ); break;
    }
  }
  // make golden and alternate differ from the last picture first
  std::vector<Bytes> base = t, cont;
  size_t pre = std::min<size_t>( rest.size() - 1, g.below( 3 ) );
  base.insert( base.end(), rest.begin(), rest.begin() + pre );
  cont.assign( rest.begin() + pre, rest.end() );
  if ( g.chance( 0.5 ) ) { CtlFrame p; p.w = sc.w; p.h = sc.h; p.seg = seg; p.lf = lf; p.ref = 1 + g.below( 2 ); cont.insert( cont.begin(), p.make() ); }
  std::vector<Bytes> fa = base, fb = base; fa.push_back( a.make() ); fb.push_back( b.make() );
  put_file( "ta", ivf_make( sc.w, sc.h, fa ) ); put_file( "tb", ivf_make( sc.w, sc.h, fb ) );
  Run xa = decode_bundle( { "ta" } ), xb = decode_bundle( { "tb" } );
  if ( !xa.ok() || !xb.ok() ) fail( "resume-refused", "a valid stream is refused: " + tail( xa.ok() ? xb.err : xa.err ) );
  std::string na = states( xa.err, "exiting" ).at( 0 ), nb = states( xb.err, "exiting" ).at( 0 ), w;
  auto after = [ & ]( std::vector<Bytes> f ) { size_t h = shown( f ); f.insert( f.end(), cont.begin(), cont.end() ); auto p = continuous( f ); return std::vector<Picture>( p.begin() + std::min( h, p.size() ), p.end() ); };
  auto pa = after( fa ), pb = after( fb );
  bool differ = !same_pictures( pa, pb, &w );
  W.counters[ differ ? "twins_apart" : "twins_alike" ]++; W.counters[ S( "twin_kind_%d", kind ) ]++;
  if ( differ && na == nb ) fail( "same-name", S( "two states that differ in %s have the same name %s, but %s", what, na.c_str(), w.c_str() ) );
  if ( differ && low32( na ) == low32( nb ) ) fail( "same-name", S( "two states that differ in %s have the same recorded name %08x", what, low32( na ) ) );
  put_file( "cont", ivf_make( sc.w, sc.h, cont, low32( na ) ) );
  Run y = decode_bundle( { "ta", "cont" } );
  if ( !y.ok() ) fail( "resume-refused", "the right continuation is refused: " + tail( y.err ) );
  Run z = decode_bundle( { "tb", "cont" } );
  Y4m v = y4m_parse( z.out );
  if ( differ && z.ok() ) fail( "wrong-state-used", S( "a continuation is decoded after a state that differs in %s: %s", what, w.c_str() ) );
  if ( !z.ok() && v.pics.size() > shown( fb ) ) fail( "refused-late", "pictures of a continuation after the wrong state" );
}
// a seeded frame history; kind: 0 libvpx's encoder, 1 random frames, 2 random frames among libvpx's
struct History { Scene sc; std::vector<Bytes> f; std::vector<Picture> pics; int n = 0, kind = 0; bool resized = false; std::string oddity; };
static const char * const stream_kind[] = { "a stream of the reference encoder", "a stream of random frames", "a stream with random frames among others" };
static History make_stream( Rng & g, bool odd, int kind )
{
  History z; Scene & sc = z.sc; sc = scene_of( g ); z.kind = kind;
  if ( g.chance( 0.5 ) ) { sc.barcode = false; sc.w = 1 + g.below( 100 ); sc.h = 1 + g.below( 70 ); }
  auto & f = z.f; auto & pics = z.pics; auto & resized = z.resized; auto & oddity = z.oddity;
  int n = z.n = 3 + g.below( 10 );
  RandFrames rf( g.next(), sc.w, sc.h );
  if ( kind != 1 ) {
    for ( int i = 0; i < n; i++ ) pics.push_back( sc.make( i ) );
    VpxEncOpt o = vpx_opt( g, true ); o.profile = 0; if ( g.chance( 0.3 ) ) o.q = g.below( 128 ); if ( o.segments && g.chance( 0.4 ) ) o.segments_from = g.below( 4 );
    f = vpx_encode( pics, o );
  }
  int what = g.below( 6 ), version = 1 + g.below( 7 ), late = g.chance( 0.5 ) ? 1 + g.below( n ) : 0;
  auto strange = [ & ]( size_t i ) { // from the frame `late` on
    if ( !odd || (int) i != late ) return;
    if ( what == 0 ) oddity = "color_space", rf.color_space = 1; if ( what == 1 ) oddity = "clamping_type", rf.clamping_type = 1;
    if ( what == 2 ) oddity = "simple filter", rf.filter_type = 1; if ( what == 3 ) oddity = "upscaling", rf.scaling = 1 + g.below( 15 );
    if ( what == 4 && late ) { oddity = "change of size", resized = true; int v = g.below( 3 ); if ( v != 1 ) rf.w = 1 + g.below( 100 ); if ( v != 0 ) rf.h = 1 + g.below( 70 ); if ( rf.w == sc.w && rf.h == sc.h ) rf.w += 1 + g.below( 20 ); }
  };
  if ( kind == 1 ) for ( int i = 0; i < n; i++ ) { strange( i ); f.push_back( rf.make( i == 0 || g.chance( 0.1 ) || ( odd && i == late && what != 2 ) ) ); }
  if ( kind == 2 ) { // frames of another origin in between; later frames continue from what they leave
    std::vector<Bytes> m; 
    for ( size_t i = 0; i < f.size(); i++ ) {
      strange( i ); if ( resized ) break; m.push_back( f[ i ] );
      auto hd = vp8_header( f[ i ] ); rf.among = true; rf.seg_on = hd.seg; rf.lf_on = hd.lf;
      if ( g.chance( 0.3 ) ) { int k = 1 + g.below( 3 ); while ( k-- ) m.push_back( rf.make( false ) ); }
    }
    if ( resized ) { rf.among = false; m.push_back( rf.make( true ) ); }
    f = m;
  }
  if ( odd && what == 5 ) { oddity = S( "version %d", version ); for ( auto & x : f ) x[ 0 ] |= version << 1; }
  return z;
}
void scenario_c15()
{
  C15 c; c.sc = scene_of( c.g, 80 );
  Rng & g = c.g; Scene & sc = c.sc;
  int n = 5 + g.below( 7 ); std::vector<Picture> pics; for ( int i = 0; i < n; i++ ) pics.push_back( sc.make( i ) );
  VpxEncOpt o = vpx_opt( g, true ); o.segments = g.chance( 0.6 ); o.profile = 0; // other versions are unsupported
  std::vector<Bytes> f;
  if ( g.chance( 0.4 ) ) { History z = make_stream( g, false, 1 + g.below( 2 ) ); f = z.f; sc = z.sc; W.counters[ "random_streams" ]++; } else f = vpx_encode( pics, o );
  std::vector<int> cuts; for ( size_t i = 0; i + 1 < f.size(); i++ ) if ( vp8_header( f[ i ] ).show ) { if ( vp8_header( f[ i + 1 ] ).key ) W.counters[ "key_frame_next" ]++; cuts.push_back( i ); }
  if ( cuts.empty() ) { W.counters[ "no_cut" ]++; return; }
  size_t k = cuts[ g.below( cuts.size() ) ];
  put_file( "in", ivf_make( sc.w, sc.h, std::vector<Bytes>( f.begin(), f.begin() + k + 1 ) ) );
  c.rest.assign( f.begin() + k + 1, f.end() );
  must( "xc-terminate-chunk", { "in", "t", "st" }, c.calm() );
  Ivf tv = ivf_parse( vfs_read( "t" ) ); if ( !tv.ok || tv.truncated ) fail( "chunk-wrong", "the terminated chunk is not a whole video" );
  c.t = tv.frames;
  must( "xc-dump", { "t", "st2" } ); equal_files( "state-handover", "st2", vfs_read( "st" ), "state saved while terminating" );
  StateFile s0( vfs_read( "st" ) ); if ( !s0.ok ) fail( "state-format", "saved state cannot be followed" );
  c.seg = s0.has_seg; c.lf = s0.has_lf;
  if ( g.chance( 0.6 ) ) { // frames that change nothing but tables: the state stays one that a file can hold
    int m = 1 + g.below( 2 ); for ( int i = 0; i < m; i++ ) c.t.push_back( random_ctl( g, sc, c.seg, c.lf, false ).make() );
    put_file( "t", ivf_make( sc.w, sc.h, c.t ) ); must( "xc-dump", { "t", "st" }, c.calm() );
  }
  Run r = decode_bundle( { "t" } ); if ( !r.ok() ) fail( "resume-refused", tail( r.err ) );
  c.name = low32( states( r.err, "exiting" ).at( 0 ) );
  put_file( "rest", c.rest_file( c.name ) );
  c.resume();
  Bytes st = vfs_read( "st" );
  // states of other moments and other streams
  if ( k > 0 ) {
    put_file( "in2", ivf_make( sc.w, sc.h, std::vector<Bytes>( f.begin(), f.begin() + k ) ) );
    Run x = tool( "xc-terminate-chunk", { "in2", "t2", "old" } );
    if ( x.ok() && vfs_read( "old" ) != st ) c.wrong( "old", "the state of an earlier moment", false );
  }
  { Scene s2 = sc; s2.seed ^= 77; if ( g.chance( 0.3 ) ) s2.w += 16;
    put_file( "in3", ivf_make( s2.w, s2.h, vpx_encode( { s2.make( 0 ), s2.make( 1 ) }, [ & ] { auto v = vpx_opt( g, true ); v.profile = 0; v.lag = 0; return v; }() ) ) );
    must( "xc-terminate-chunk", { "in3", "t3", "other" } ); if ( vfs_read( "other" ) != st ) c.wrong( "other", "the state of another stream", true ); }
  // the file was cut short or changed while stored
  StateFile sf( st ); if ( !sf.ok ) fail( "state-format", "saved state cannot be followed" );
  for ( int i = 0; i < 10; i++ ) {
    Bytes b = st; u64 m; std::string what;
    if ( g.chance( 0.12 ) ) { if ( !fault( F_TRUNCATED_FILE, 1.0, &m ) ) continue; b.resize( g.below( b.size() ) ); what = S( "a state file cut to %zu bytes", b.size() ); }
    else {
      u64 r1 = g.next(), r2 = g.next(); size_t p; int bit = r2 % 8;
      switch ( g.below( 6 ) ) {
      case 0: p = r1 % b.size(); break;
      case 1: p = sf.prob + 5 + r1 % ( sf.prob_len - 5 ); break;
      case 2: p = sf.seg + r1 % sf.seg_len; break;
      case 3: p = sf.lf + r1 % sf.lf_len; break;
      case 4: p = sf.refs + r1 % sf.refs_len; break;
      default: p = r1 % 14; break;
      }
      if ( !fault( F_BITFLIP, 1.0, &m ) ) continue;
      b[ p ] ^= 1 << bit;
      what = S( "bit %d of byte %zu of the state file flipped (tables %zu, segments %zu, filter %zu, pictures %zu)", bit, p, sf.prob, sf.seg, sf.lf, sf.refs );
    }
    put_file( "bad", b ); c.wrong( "bad", what.c_str(), false );
  }
  for ( int i = 0; i < 4; i++ ) c.twins();
}
// ---------- C19: decoding ----------
// Any valid stream, however it is cut into files and read, shows what the reference decoder shows.
void scenario_c19()
{
  Rng g( h2( W.cfg.seed, 0xc19 ) );
  int kind = g.below( 7 ) % 4; // the fourth: frames that use what is not supported
  bool odd = kind == 3; if ( odd ) kind = 1 + g.below( 2 );
  History z = make_stream( g, odd, kind ); auto & f = z.f; auto & sc = z.sc; bool resized = z.resized; auto & oddity = z.oddity;
  if ( f.empty() ) return;
  bool ok; auto ref = vpx_pictures( f, &ok ); std::string w;
  if ( !ok ) { W.counters[ "not_a_valid_stream" ]++; return; }
  auto calm = [ & ] { Opt o; if ( g.chance( 0.4 ) ) { o.io = true; o.rates.sread = o.rates.swrite = 0.3 * g.unit(); } return o; };
  auto & kinds = stream_kind;
  { // in one file or several, from the beginning
    std::vector<std::string> names; std::vector<Bytes> part;
    for ( size_t i = 0; i < f.size(); i++ ) { part.push_back( f[ i ] ); if ( i + 1 == f.size() || g.chance( 0.2 ) ) { names.push_back( N( "part", names.size() ) ); put_file( names.back(), ivf_make( sc.w, sc.h, part ) ); part.clear(); } }
    Run r = decode_bundle( names, "", calm() );
    if ( odd ) { // refused, or decoded as it should be; what came out before is right in any case
      if ( r.ok() && resized ) fail( "decode-picture", "xc-decode-bundle accepts a stream whose pictures change their size" );
      Y4m y = y4m_parse( r.out ); bool fewer = !r.ok() && y.pics.size() < ref.size(); auto part = ref; if ( fewer ) part.resize( y.pics.size() );
      if ( !r.ok() && y.pics.empty() ) {} else if ( !same_pictures( y.pics, part, &w ) ) fail( "decode-picture", S( "xc-decode-bundle %s a stream with unsupported features (%s), but %s", r.ok() ? "accepts" : "shows a part of", oddity.c_str(), w.c_str() ) );
      put_file( "whole", ivf_make( sc.w, sc.h, f ) ); Run d = tool( "vp8decode", { "-o", "o.y4m", "whole" }, calm() );
      if ( d.ok() ) {
        if ( resized ) fail( "decode-picture", "vp8decode accepts a stream whose pictures change their size" );
        Run x; x.out = vfs_read( "o.y4m" ); x.what = "vp8decode";
        if ( !same_pictures( pictures_of( x, "decode-output" ), ref, &w ) ) fail( "decode-picture", S( "vp8decode accepts a stream with unsupported features (%s), but %s", oddity.c_str(), w.c_str() ) );
      } else if ( d.err.empty() ) fail( "silent-failure", "vp8decode refuses a stream without saying anything" );
      W.counters[ r.ok() ? "unsupported_decoded_right" : "unsupported_refused" ]++;
      return;
    }
    if ( !r.ok() ) fail( "decode-refused", S( "xc-decode-bundle refuses %s: %s", kinds[ kind ], tail( r.err ).c_str() ) );
    if ( !same_pictures( pictures_of( r, "decode-output" ), ref, &w ) ) fail( "decode-picture", S( "xc-decode-bundle, %s (%dx%d): %s", kinds[ kind ], sc.w, sc.h, w.c_str() ) );
  }
  if ( vp8_header( f.back() ).show ) { // vp8decode does not support a hidden frame at the end
    put_file( "whole", ivf_make( sc.w, sc.h, f ) );
    must( "vp8decode", { "-o", "o.y4m", "whole" }, calm() );
    Run x; x.out = vfs_read( "o.y4m" ); x.what = "vp8decode";
    if ( !same_pictures( pictures_of( x, "decode-output" ), ref, &w ) ) fail( "decode-picture", S( "vp8decode, %s (%dx%d): %s", kinds[ kind ], sc.w, sc.h, w.c_str() ) );
    if ( g.chance( 0.3 ) ) { // what the player puts on the screen
      Drawn d; must( "vp8play", { "whole" }, calm() );
      if ( !same_pictures( d.pics, ref, &w ) ) fail( "decode-picture", S( "vp8play, %s (%dx%d): %s", kinds[ kind ], sc.w, sc.h, w.c_str() ) );
      W.counters[ "pictures_drawn" ] += d.pics.size();
    }
  }
  W.counters[ "pictures_checked" ] += ref.size(); W.counters[ S( "stream_kind_%d", kind ) ]++; W.counters[ "frames_decoded" ] += f.size();
}
// ---------- C20: rewriting streams ----------
// what xc-dissect says about the modes of a stream
static std::string modes_of( const std::string & file )
{
  Run r = must( "xc-dissect", { "-m", "-p", file } ); std::string o, l;
  for ( u8 c : r.out ) if ( c == '\n' ) { if ( l.find( "Size:" ) == std::string::npos ) o += l + "\n"; l.clear(); } else l += c;
  return o;
}
void scenario_c20()
{
  Rng g( h2( W.cfg.seed, 0xc20 ) );
  History z = make_stream( g, false, g.below( 3 ) ); auto & f = z.f; auto & sc = z.sc;
  if ( f.empty() ) return;
  bool ok; auto ref = vpx_pictures( f, &ok ); std::string w;
  if ( !ok ) { W.counters[ "not_a_valid_stream" ]++; return; }
  auto calm = [ & ] { Opt o; if ( g.chance( 0.4 ) ) { o.io = true; o.rates.sread = o.rates.swrite = 0.3 * g.unit(); } return o; };
  const char * what = stream_kind[ z.kind ];
  put_file( "in", ivf_make( sc.w, sc.h, f ) );
  { // terminating
    must( "xc-terminate-chunk", { "in", "out", "state" }, calm() );
    Ivf o = ivf_parse( vfs_read( "out" ) );
    if ( !o.ok || o.truncated || o.frames.size() != f.size() || o.claimed != f.size() || o.w != sc.w || o.h != sc.h ) fail( "rewrite-file", S( "xc-terminate-chunk wrote %zu frames (%u claimed) for %zu", o.frames.size(), o.claimed, f.size() ) );
    auto got = vpx_pictures( o.frames, &ok );
    if ( !ok ) fail( "rewrite-invalid", S( "xc-terminate-chunk made %s (%dx%d) invalid", what, sc.w, sc.h ) );
    if ( !same_pictures( got, ref, &w ) ) fail( "rewrite-picture", S( "xc-terminate-chunk changed %s (%dx%d): %s", what, sc.w, sc.h, w.c_str() ) );
    must( "xc-dump", { "out", "dump" }, calm() );
    equal_files( "rewrite-state", "dump", vfs_read( "state" ), "the state xc-terminate-chunk wrote and the one its output leads to" );
    must( "xc-terminate-chunk", { "out", "again", "state2" }, calm() );
    equal_files( "rewrite-again", "again", vfs_read( "out" ), "a terminated chunk, terminated" );
    equal_files( "rewrite-again", "state2", vfs_read( "state" ), "state after a terminated chunk, terminated" );
    // afterwards the last picture is the only reference
    Run r = decode_bundle( { "out" }, "", calm() ); if ( !r.ok() ) fail( "rewrite-refused", "xc-decode-bundle refuses a terminated chunk: " + tail( r.err ) );
    auto ex = states( r.err, "exiting" ); std::string s = ex.empty() ? "" : ex.back(); size_t p = s.find( '(' ), q = s.find( ')' );
    if ( p == std::string::npos || q == std::string::npos ) fail( "rewrite-state", "xc-decode-bundle does not name the last state" );
    std::vector<std::string> parts; std::string cur; for ( char c : s.substr( p + 1, q - p - 1 ) ) if ( c == '_' ) { parts.push_back( cur ); cur.clear(); } else cur += c; parts.push_back( cur );
    if ( parts.size() != 4 || parts[ 1 ] != parts[ 2 ] || parts[ 1 ] != parts[ 3 ] ) fail( "rewrite-open", "after a terminated chunk the references differ: " + s );
    W.counters[ "terminated" ]++;
  }
  { // joining
    size_t k = 1 + g.below( f.size() ); std::vector<Bytes> a( f.begin(), f.begin() + k ), b( f.begin() + k, f.end() );
    put_file( "a", ivf_make( sc.w, sc.h, a ) ); put_file( "b", ivf_make( sc.w, sc.h, b ) );
    must( "xc-merge", { "a", "b", "joined" }, calm() );
    Ivf o = ivf_parse( vfs_read( "joined" ) );
    if ( !o.ok || o.truncated || o.frames != f || o.claimed != f.size() || o.w != sc.w || o.h != sc.h ) fail( "rewrite-join", S( "xc-merge made %zu frames of %zu and %zu, or changed them", o.frames.size(), a.size(), b.size() ) );
    W.counters[ "joined" ]++;
  }
  { // taking the residues out
    Run r = tool( "xc-zero-out-residues", { "in", "bare" }, calm() );
    if ( !r.ok() ) { // frames without skip flags are not supported
      if ( r.err.empty() ) fail( "silent-failure", "xc-zero-out-residues fails without saying anything" );
      bool known = r.err.find( "prob_skip_false" ) != std::string::npos; if ( !known ) fail( "rewrite-refused", "xc-zero-out-residues refuses a valid stream: " + tail( r.err ) );
      W.counters[ "not_bared" ]++; W.counters[ "pictures_checked" ] += ref.size(); return;
    }
    Ivf o = ivf_parse( vfs_read( "bare" ) );
    if ( !o.ok || o.truncated || o.frames.size() != f.size() || o.claimed != f.size() ) fail( "rewrite-file", S( "xc-zero-out-residues wrote %zu frames (%u claimed) for %zu", o.frames.size(), o.claimed, f.size() ) );
    vpx_pictures( o.frames, &ok ); if ( !ok ) fail( "rewrite-invalid", "xc-zero-out-residues made the stream invalid" );
    if ( g.chance( 0.3 ) ) {
      std::string a = modes_of( "in" ), b = modes_of( "bare" );
      if ( a != b ) { size_t i = 0, l = 1; while ( i < a.size() && i < b.size() && a[ i ] == b[ i ] ) l += a[ i++ ] == '\n'; fail( "rewrite-modes", S( "xc-zero-out-residues changed the headers or modes of %s: line %zu of xc-dissect's report", what, l ) ); }
      W.counters[ "modes_compared" ]++;
    }
    W.counters[ "bared" ]++;
  }
  W.counters[ "pictures_checked" ] += ref.size(); W.counters[ S( "stream_kind_%d", z.kind ) ]++;
}
// ---------- C16: damaged input ----------
static void poke( Bytes & b, size_t p, u64 v, int n ) { for ( int i = 0; i < n && p + i < b.size(); i++ ) b[ p + i ] = v >> ( 8 * i ); }
static u64 odd_value( Rng & g, u64 was, int bits )
{
  u64 m = bits >= 64 ? ~0ull : ( 1ull << bits ) - 1;
  switch ( g.below( 9 ) ) {
  case 0: return 0; case 1: return m; case 2: return ( was + 1 ) & m; case 3: return ( was - 1 ) & m; case 4: return ( was ^ ( 1ull << g.below( bits ) ) ) & m;
  case 5: return g.next() & m; case 6: return ( was * 2 ) & m; case 7: return ( was + 16 ) & m; default: return g.below( 64 ) & m;
  }
}
// Changes stored bytes the way bad storage, interrupted copies and mixed-up files do.
static std::string damage( Rng & g, Bytes & b, const std::string & name )
{
  u64 m, r = g.next(); size_t n = b.size(); std::string what = name + ": ";
  auto at32 = [ & ]( size_t p ) -> u64 { return p + 4 <= n ? b[ p ] | b[ p + 1 ] << 8 | b[ p + 2 ] << 16 | (u64) b[ p + 3 ] << 24 : 0; };
  if ( !n ) return what + "empty";
  bool ivf = n > 32 && !memcmp( b.data(), "DKIF", 4 ), y4m = n > 9 && !memcmp( b.data(), "YUV4MPEG2", 9 );
  int k = g.below( 11 );
  if ( k < 2 ) { if ( !fault( F_TRUNCATED_FILE, 1.0, &m ) ) return ""; size_t c = g.chance( 0.3 ) ? r % std::min<size_t>( n, 64 ) : r % n; b.resize( c ); return what + S( "cut to %zu of %zu bytes", c, n ); }
  if ( !fault( F_BITFLIP, 1.0, &m ) ) return "";
  if ( k == 2 ) { int c = 1 + r % 8; what += S( "%d bits flipped", c ); for ( int i = 0; i < c; i++ ) { size_t p = g.below( n ); b[ p ] ^= 1 << g.below( 8 ); what += S( " %zu", p ); } return what; }
  if ( k == 3 ) { size_t p = r % n, l = std::min<size_t>( n - p, 1 + g.below( 600 ) ); int f = g.below( 3 ); for ( size_t i = 0; i < l; i++ ) b[ p + i ] = f == 0 ? 0 : f == 1 ? 255 : g.next(); return what + S( "%zu bytes from %zu overwritten (%d)", l, p, f ); }
  if ( k == 4 ) { size_t p = r % n, l = std::min<size_t>( n - p, 1 + g.below( 300 ) ); if ( g.chance( 0.5 ) ) { b.erase( b.begin() + p, b.begin() + p + l ); return what + S( "%zu bytes at %zu lost", l, p ); } Bytes c( b.begin() + p, b.begin() + p + l ); b.insert( b.begin() + p, c.begin(), c.end() ); return what + S( "%zu bytes at %zu twice", l, p ); }
  // aimed at the fields of the format
  if ( ivf ) {
    std::vector<size_t> fr; for ( size_t p = 32; p + 12 <= n; p += 12 + at32( p ) ) fr.push_back( p );
    switch ( g.below( fr.empty() ? 1 : 6 ) ) {
    case 0: { static const int f[][ 2 ] = { { 0, 4 }, { 4, 2 }, { 6, 2 }, { 8, 4 }, { 12, 2 }, { 14, 2 }, { 12, 2 }, { 14, 2 }, { 24, 4 }, { 24, 4 }, { 28, 4 }, { 16, 4 }, { 20, 4 } }; auto & x = f[ g.below( 13 ) ]; u64 was = x[ 1 ] == 2 ? at32( x[ 0 ] ) & 0xffff : at32( x[ 0 ] ), v = odd_value( g, was, 8 * x[ 1 ] ); poke( b, x[ 0 ], v, x[ 1 ] ); return what + S( "video header field at %d is %llu", x[ 0 ], (unsigned long long) v ); }
    case 1: { size_t p = fr[ g.below( fr.size() ) ]; u64 v = odd_value( g, at32( p ), 32 ); poke( b, p, v, 4 ); return what + S( "frame length at %zu is %llu", p, (unsigned long long) v ); }
    case 2: { size_t p = fr[ g.below( fr.size() ) ] + 12 + g.below( 10 ); if ( p < b.size() ) b[ p ] = odd_value( g, b[ p ], 8 ); return what + S( "frame tag byte at %zu changed", p ); }
    case 3: { size_t p = fr[ g.below( fr.size() ) ] + 15 + g.below( 30 ); if ( p < b.size() ) b[ p ] = g.next(); return what + S( "frame header byte at %zu changed", p ); }
    case 4: { size_t p = fr[ g.below( fr.size() ) ]; u64 len = at32( p ); u64 keep = g.below( std::min<u64>( len, 40 ) ); if ( p + 12 + len > n ) return ""; b.erase( b.begin() + p + 12 + keep, b.begin() + p + 12 + len ); poke( b, p, keep, 4 ); return what + S( "frame at %zu cut to %llu bytes", p, (unsigned long long) keep ); }
    default: { size_t p = fr[ g.below( fr.size() ) ]; u64 len = at32( p ); u32 tag = at32( p + 12 ) & 0xffffff; u32 p1 = tag >> 5; bool key = !( tag & 1 );
        if ( g.chance( 0.5 ) ) { u64 v = odd_value( g, p1, 19 ); poke( b, p + 12, ( tag & 31 ) | v << 5, 3 ); return what + S( "first partition of frame at %zu claims %llu bytes", p, (unsigned long long) v ); }
        size_t q = p + 12 + ( key ? 10 : 3 ) + p1; (void) len; u64 v = odd_value( g, 100, 24 ); poke( b, q, v, 3 ); return what + S( "partition size of frame at %zu is %llu", p, (unsigned long long) v ); }
    }
  }
  if ( y4m ) {
    size_t e = 0; while ( e < n && b[ e ] != '\n' ) e++;
    std::string h( b.begin(), b.begin() + e ); size_t fl;
    static const char * const vals[] = { "0", "-1", "1", "15", "65535", "65536", "65600", "4294967296", "99999999999999999999", "", "x", "16", "640", "32", " " };
    switch ( g.below( 5 ) ) {
    case 0: case 1: { const char * key = g.chance( 0.5 ) ? " W" : " H"; fl = h.find( key ); if ( fl != std::string::npos ) { size_t z = h.find( ' ', fl + 2 ); h.replace( fl + 2, z - fl - 2, vals[ g.below( 15 ) ] ); } break; }
    case 2: { fl = h.find( " F" ); static const char * const fs[] = { "0:0", "24:0", "0:1", "x", "24", ":", "-1:1", "99999999999:1", "" }; if ( fl != std::string::npos ) { size_t z = h.find( ' ', fl + 2 ); h.replace( fl + 2, z - fl - 2, fs[ g.below( 9 ) ] ); } break; }
    case 3: { static const char * const t[] = { " Cmono", " C444", " It", " I", " C", " A", " Q7", "  ", " X", " W" }; h += t[ g.below( 10 ) ]; break; }
    default: { size_t p = e + 1 + g.below( 7 ); if ( p < n ) b[ p ] = g.chance( 0.5 ) ? '\n' : g.next(); return what + S( "picture header byte at %zu changed", p ); }
    }
    Bytes x( h.begin(), h.end() ); x.insert( x.end(), b.begin() + e, b.end() ); b = x;
    return what + "header is now \"" + h + "\"";
  }
  StateFile sf( b ); size_t p = 0;
  switch ( g.below( 6 ) ) {
  case 0: p = g.below( 14 ); break;
  case 1: p = sf.ok ? sf.seg + g.below( 18 ) : g.below( n ); break;
  case 2: p = sf.ok ? sf.lf + g.below( 8 ) : g.below( n ); break;
  case 3: p = sf.ok ? sf.refs + g.below( 14 ) : g.below( n ); break;
  case 4: p = sf.ok ? sf.prob + g.below( 5 ) : g.below( n ); break;
  default: p = g.below( n );
  }
  if ( p < n ) b[ p ] = odd_value( g, b[ p ], 8 );
  return what + S( "byte at %zu changed (tables %zu, segments %zu, filter %zu, pictures %zu)", p, sf.prob, sf.seg, sf.lf, sf.refs );
}
// the largest picture the file asks for, so that honest work is not mistaken for a loop
static u64 asks_for( const Bytes & b )
{
  u64 w = 0, h = 0;
  if ( b.size() > 32 && !memcmp( b.data(), "DKIF", 4 ) ) { w = b[ 12 ] | b[ 13 ] << 8; h = b[ 14 ] | b[ 15 ] << 8; }
  else if ( b.size() > 9 && !memcmp( b.data(), "YUV4MPEG2", 9 ) ) { Y4m y; std::string s( b.begin(), b.begin() + std::min<size_t>( b.size(), 200 ) ); size_t p = s.find( " W" ), q = s.find( " H" ); if ( p != std::string::npos ) w = (uint16_t) atoll( s.c_str() + p + 2 ); if ( q != std::string::npos ) h = (uint16_t) atoll( s.c_str() + q + 2 ); }
  else if ( b.size() > 14 ) { w = b[ 10 ] | b[ 11 ] << 8; h = b[ 12 ] | b[ 13 ] << 8; }
  return w * h;
}
void scenario_c16()
{
  Rng g( h2( W.cfg.seed, 0xc16 ) );
  bool guard = guard_memory; guard_memory = false;
  Inputs I; prepare( g, I, true );
  { Scene s2 = I.sc; s2.seed ^= 5; s2.w = 160 - s2.w; s2.h = 80 - s2.h; s2.barcode = false; // other pictures of another size
    VpxEncOpt o = vpx_opt( g, true ); o.lag = 0; o.altref = false; std::vector<Picture> ps{ s2.make( 0 ), s2.make( 1 ) };
    put_file( "o.ivf", ivf_make( s2.w, s2.h, vpx_encode( ps, o ) ) ); put_file( "o.y4m", y4m_make( ps ) );
    must( "xc-terminate-chunk", { "o.ivf", "ot.ivf", "os" } ); I.keep( "o.ivf" ); I.keep( "o.y4m" ); I.keep( "os" ); }
  { VpxEncOpt o = vpx_opt( g, true ); o.segments = true; o.profile = 0; o.lag = 0; o.altref = false; // a state with segments, and a continuation that names no state
    auto f = vpx_encode( I.pics, o ); size_t k = g.below( f.size() - 1 ) + 1;
    std::vector<Bytes> b( f.begin() + k, f.end() ), a( f.begin(), f.begin() + k );
    put_file( "ys.ivf", ivf_make( I.sc.w, I.sc.h, a ) ); must( "xc-dump", { "ys.ivf", "sy" } );
    StateFile s( vfs_read( "sy" ) ); if ( !s.ok ) fail( "state-format", "saved state cannot be followed" );
    for ( int i = 0; i < 2; i++ ) if ( g.chance( 0.7 ) ) { CtlFrame c = random_ctl( g, I.sc, s.has_seg, s.has_lf, true ); if ( g.chance( 0.7 ) ) c.map.clear(); b.insert( b.begin() + g.below( b.size() + 1 ), c.make() ); }
    put_file( "cz.ivf", ivf_make( I.sc.w, I.sc.h, b ) ); I.keep( "sy" ); I.keep( "cz.ivf" ); }
  if ( g.chance( 0.4 ) ) { // anything a header can say
    RandFrames rf( g.next(), I.sc.w, I.sc.h ); rf.always_shown = g.chance( 0.5 ); std::vector<Bytes> f; int n = 2 + g.below( 4 );
    for ( int i = 0; i < n; i++ ) f.push_back( rf.make( i == 0 || g.chance( 0.1 ) ) );
    put_file( "x.ivf", ivf_make( I.sc.w, I.sc.h, f ) ); I.keep( "x.ivf" ); W.counters[ "random_streams" ]++;
  }
  guard_memory = guard; size_t al = alloc_limit; alloc_limit = 8 << 20;
  struct Case { const char * prog; std::vector<std::string> args, files; Bytes in; bool msg = true; bool enc = false; };
  auto list = [ & ]( const std::string & s ) { return Bytes( s.begin(), s.end() ); };
  std::vector<Case> cases = {
    { "vp8decode", { "-o", "out.y4m", "x.ivf" }, { "x.ivf" } }, { "vp8decode", { "x.ivf" }, { "x.ivf" } }, { "vp8decode", { "-s", "sa", "-o", "out.y4m", "rb.ivf" }, { "sa", "rb.ivf" } },
    { "xc-dump", { "x.ivf", "out" }, { "x.ivf" } }, { "xc-dump", { "-f", "1", "x.ivf", "out" }, { "x.ivf" } }, { "xc-dump", { "-S", "sa", "rb.ivf", "out" }, { "sa", "rb.ivf" } },
    { "xc-decode-bundle", {}, { "ta.ivf", "rb.ivf" }, list( "ta.ivf\nrb.ivf\n" ) }, { "xc-decode-bundle", { "sa" }, { "sa", "rb.ivf" }, list( "rb.ivf\n" ) }, { "xc-decode-bundle", {}, { "x.ivf" }, list( "x.ivf\n" ) },
    { "xc-terminate-chunk", { "x.ivf", "out.ivf", "out" }, { "x.ivf" } },
    { "vp8play", { "x.ivf" }, { "x.ivf" } }, { "vp8play", { "rb.ivf", "sa" }, { "rb.ivf", "sa" } },
    { "xc-dissect", { "x.ivf" }, { "x.ivf" } }, { "xc-dissect", { "-m", "-p", "-c", "x.ivf" }, { "x.ivf" } }, { "xc-dissect", { "-s", "sa", "rb.ivf" }, { "sa", "rb.ivf" } },
    { "vp8decode", { "-s", "sy", "-o", "out.y4m", "cz.ivf" }, { "sy", "sy", "cz.ivf" } }, { "xc-dump", { "-S", "sy", "cz.ivf", "out" }, { "sy", "sy", "cz.ivf" } }, { "xc-decode-bundle", { "sy" }, { "sy", "sy", "cz.ivf" }, list( "cz.ivf\n" ) },
    { "vp8play", { "cz.ivf", "sy" }, { "sy", "sy", "cz.ivf" } }, { "xc-dissect", { "-m", "-s", "sy", "cz.ivf" }, { "sy", "sy", "cz.ivf" } },
    { "xc-framesize", { "x.ivf" }, { "x.ivf" } }, { "fake-webcam", { "raw.y4m", "20" }, { "raw.y4m" } },
    { "comp-states", { "sa", "sb" }, { "sa", "sb" }, {}, false }, { "xc-diff", { "sa", "sb" }, { "sa", "sb" }, {}, false },
    { "xc-enc", { "-y", "40", "-q", "rt", "-o", "out.ivf", "x.ivf" }, { "x.ivf" }, {}, true, true }, { "xc-enc", { "-i", "y4m", "-y", "40", "-q", "rt", "-o", "out.ivf", "raw.y4m" }, { "raw.y4m" }, {}, true, true },
    { "xc-enc", { "-i", "y4m", "-y", "40", "-q", "rt", "-o", "out.ivf", "-I", "sa", "rawb.y4m" }, { "sa", "rawb.y4m" }, {}, true, true },
    { "xc-enc", { "-r", "-W", "-i", "y4m", "-q", "rt", "-I", "sa", "-p", "b.ivf", "-o", "out.ivf", "-O", "out", "rawb.y4m" }, { "sa", "b.ivf", "rawb.y4m" }, {}, true, true },
    { "xc-enc", { "-r", "-W", "-i", "y4m", "-q", "rt", "-I", "sa", "-p", "rb.ivf", "-S", "sa", "-o", "out.ivf", "rawb.y4m" }, { "sa", "rb.ivf", "rawb.y4m" }, {}, true, true },
    { "xc-zero-out-residues", { "x.ivf", "out.ivf" }, { "x.ivf" } }, { "xc-merge", { "a.ivf", "b.ivf", "out.ivf" }, { "a.ivf", "b.ivf" } }, { "xc-ssim", { "-1", "ivf", "-2", "y4m", "x.ivf", "raw.y4m" }, { "x.ivf", "raw.y4m" } },
  };
  const char * only = W.cfg.has( "only" ) ? W.cfg.kv[ "only" ].c_str() : nullptr;
  for ( int i = 0; i < 24; i++ ) {
    I.restore();
    Case c = cases[ g.below( 4 ) ? g.below( 24 ) : g.below( cases.size() ) ];
    std::string f = c.files[ g.below( c.files.size() ) ]; Bytes b = vfs_read( f ); std::string what;
    if ( g.chance( 0.1 ) ) { // the wrong file under this name
      static const char * const o[] = { "o.ivf", "o.y4m", "os", "x.ivf", "sa", "raw.y4m", "sizes", "sb", "rb.ivf" }; std::string from = o[ g.below( 9 ) ]; u64 m; if ( !fault( F_BITFLIP, 1.0, &m ) ) continue; b = vfs_read( from ); what = f + " replaced by " + from;
    } else { int k = g.chance( 0.8 ) ? 1 : 2; for ( int j = 0; j < k; j++ ) { std::string d = damage( g, b, f ); what += ( what.empty() ? "" : "; " ) + d; } }
    if ( what.empty() ) continue;
    u64 px = asks_for( b ); if ( px > 2500 * 2500 || ( c.enc && px > 256 * 256 ) ) { W.counters[ "skipped_too_large" ]++; continue; }
    if ( only && c.prog != std::string( only ) ) continue;
    put_file( f, b );
    logf( "damage: %s", what.c_str() );
    Opt o; o.in = c.in;
    Run r = tool( c.prog, c.args, o );
    W.counters[ r.ok() ? "accepted" : "refused" ]++; W.counters[ std::string( "ran_" ) + c.prog ]++;
    if ( r.died ) fail( "tool-aborts", S( "%s on a damaged file (%s): %s %s", r.what.c_str(), what.c_str(), r.why.c_str(), tail( r.err ).c_str() ) );
    if ( !r.ok() && c.msg && r.err.empty() ) fail( "silent-failure", S( "%s on a damaged file (%s): status %d without a message", r.what.c_str(), what.c_str(), r.status ) );
  }
  alloc_limit = al;
}

// ---------- C18: the fake webcam ----------
void scenario_c18()
{
  Rng g( h2( W.cfg.seed, 0xc18 ) );
  struct Rec { std::vector<std::pair<u64, u64>> writes; /* bytes before, time */ std::vector<u64> stalls; u64 start = 0, freed = 0; std::vector<u64> freed_at; std::shared_ptr<bool> live; };
  for ( int round = 0; round < 3; round++ ) {
    Scene sc = scene_of( g );
    if ( g.chance( 0.4 ) ) { sc.w -= g.below( 2 ); sc.h -= g.below( 2 ); sc.barcode = sc.w >= 64; }
    int n = g.chance( 0.1 ) ? g.below( 2 ) : 2 + g.below( 60 );
    static const unsigned rates[] = { 1, 2, 5, 7, 12, 23, 24, 25, 30, 30, 50, 60, 60, 97, 120, 240, 1000 };
    unsigned fps = rates[ g.below( 17 ) ];
    std::vector<Picture> ps; for ( int i = 0; i < n; i++ ) ps.push_back( sc.make( i ) );
    Bytes in = y4m_make( ps.empty() ? std::vector<Picture>{ sc.make( 0 ) } : ps, 1 + g.below( 60 ) );
    size_t psz = 6 + sc.w * sc.h + 2 * ( ( sc.w + 1 ) / 2 ) * ( ( sc.h + 1 ) / 2 );
    if ( ps.empty() ) in.resize( in.size() - psz );
    if ( g.chance( 0.3 ) ) { // other ways of writing the header
      size_t e = 0; while ( in[ e ] != '\n' ) e++;
      static const char * const h[] = { " XYSCSS=420JPEG", " Xanything", "", " A1:1", " C420mpeg2", " It" };
      std::string x = S( "YUV4MPEG2 H%d W%d%s", sc.h, sc.w, h[ g.below( 6 ) ] ); Bytes b( x.begin(), x.end() ); b.insert( b.end(), in.begin() + e, in.end() ); in = b;
    }
    // 0-5 plain, 6 input cut, 7 write errors, 8 read errors
    int kind = g.below( 9 ); size_t whole = n; u64 m;
    size_t hl = 0; while ( in[ hl ] != '\n' ) hl++; hl++;
    bool cut = false, errors = false;
    Opt o;
    if ( kind == 6 && n > 0 && fault( F_TRUNCATED_FILE, 1.0, &m ) ) { whole = g.below( n ); size_t extra = 1 + g.below( g.chance( 0.3 ) ? 7 : psz - 1 ); in.resize( hl + whole * psz + extra ); cut = true; }
    put_file( "in.y4m", in );
    if ( g.chance( 0.5 ) ) { o.io = true; o.rates.sread = g.chance( 0.5 ) ? 0.3 * g.unit() : 0; o.rates.swrite = g.chance( 0.5 ) ? 0.5 * g.unit() : 0; }
    if ( kind == 7 ) { o.io = true; errors = true; ( g.chance( 0.5 ) ? o.rates.ewrite : o.rates.enospc ) = 0.002; }
    if ( kind == 8 ) { o.io = true; errors = true; o.rates.eread = 0.0005; }
    W.stall_p = g.chance( 0.4 ) ? 0.0005 : 0; W.stall_max = g.chance( 0.5 ) ? 20 * MS : 1 * SEC;
    u64 span = ( n + 2 ) * ( SEC / fps ) + 200 * MS;
    // the reader of the pipe: it may stop reading for a while
    u64 cap = g.chance( 0.3 ) ? NEVER : g.chance( 0.5 ) ? 65536 : 512 + g.below( 8000 );
    struct Stall { u64 t, len; }; std::vector<Stall> st; int ns = g.chance( 0.7 ) && cap != NEVER ? 1 + g.below( 4 ) : 0;
    for ( int i = 0; i < ns; i++ ) { Stall s{ g.below( span ), 1 + g.below( g.chance( 0.5 ) ? span / 2 : 3 * SEC / fps ) }; if ( fault( F_DISPLAY_STALL, 1.0, &m ) ) st.push_back( s ); }
    struct Jump { u64 t; int64_t by; }; std::vector<Jump> jumps;
    if ( g.chance( 0.4 ) ) for ( u64 i = 1 + g.below( 3 ); i--; ) { Jump j{ g.below( span ), (int64_t) g.below( 20 * SEC ) - (int64_t) ( 10 * SEC ) }; if ( g.chance( 0.3 ) ) j.by *= 400; if ( fault( F_CLOCK_JUMP, 1.0, &m ) ) jumps.push_back( j ); }
    auto R = std::make_shared<Rec>(); R->live = std::make_shared<bool>( true );
    o.setup = [ = ]( Node * nd, PipeOut * p ) {
      R->start = W.now;
      auto live = R->live; auto stalled = std::make_shared<int>( 0 );
      p->capacity = cap;
      p->on_write = [ R, p, stalled ]( const u8 *, size_t k ) { R->writes.push_back( { p->data.size() - k, W.now } ); R->stalls.push_back( fault_count( F_STALL ) ); R->freed_at.push_back( R->freed ); if ( !*stalled ) p->drained = p->data.size(); };
      if ( cap != NEVER ) p->room = [ p ] { return p->capacity - ( p->data.size() - p->drained ); };
      for ( auto & s : st ) {
        at( W.now + s.t, [ live, stalled ] { if ( *live ) ++*stalled; } );
        at( W.now + s.t + s.len, [ live, stalled, p, R ] { if ( *live && !--*stalled ) { if ( p->capacity == p->data.size() - p->drained ) R->freed = W.now; p->drained = p->data.size(); } } );
      }
      for ( auto & j : jumps ) at( W.now + j.t, [ live, nd, j ] { if ( *live ) nd->clock_off += j.by; } );
    };
    u64 stalls0 = fault_count( F_STALL ), sm = W.stall_max;
    Run r = tool( "fake-webcam", { "in.y4m", std::to_string( fps ) }, o );
    *R->live = false; W.stall_p = 0;
    if ( r.died ) fail( "webcam-died", S( "%s: %s %s", r.what.c_str(), r.why.c_str(), tail( r.err ).c_str() ) );
    bool failed = !r.ok();
    if ( failed && !cut && !errors ) fail( "webcam-failed", S( "%s: status %d: %s", r.what.c_str(), r.status, tail( r.err ).c_str() ) );
    if ( !failed && cut ) fail( "webcam-end", "the input ends inside a picture and the fake webcam reports success" );
    if ( failed && r.err.empty() ) fail( "webcam-silent", "failure without a message" );
    // contents
    const Bytes & d = r.out; size_t oh = 0; while ( oh < d.size() && d[ oh ] != '\n' ) oh++;
    Y4m y = y4m_parse( d ); std::string w;
    size_t want = cut ? whole : n;
    bool io_failed = failed && errors;
    if ( want == 0 && d.empty() ) {}
    else if ( io_failed ) {
      if ( y.ok && y.pics.size() > want ) fail( "webcam-pictures", "too many pictures" );
      std::vector<Picture> pre( ps.begin(), ps.begin() + std::min( y.pics.size(), ps.size() ) );
      if ( !same_pictures( y.pics, pre, &w ) ) fail( "webcam-pictures", "before an I/O error: " + w );
    } else {
      if ( !y.ok ) fail( "webcam-header", "no stream header" );
      if ( y.w != sc.w || y.h != sc.h || ( y.header + " " ).find( S( " F%u:1 ", fps ) ) == std::string::npos ) fail( "webcam-header", S( "header \"%s\" for %dx%d at %u per second", y.header.c_str(), sc.w, sc.h, fps ) );
      std::vector<Picture> pre( ps.begin(), ps.begin() + want );
      if ( !same_pictures( y.pics, pre, &w ) ) fail( "webcam-pictures", w );
      if ( y.trailing ) fail( "webcam-pictures", S( "%zu bytes that are not a picture at the end", y.trailing ) );
    }
    W.counters[ failed ? "failures" : "whole_streams" ]++;
    // times
    size_t np = oh < d.size() ? ( d.size() - oh - 1 + psz - 1 ) / psz : 0; // pictures begun
    auto find = [ & ]( u64 off ) { size_t k = std::upper_bound( R->writes.begin(), R->writes.end(), std::make_pair( off, NEVER ) ) - R->writes.begin(); return k - 1; };
    u64 eps = ( 4 * sc.h + 200 ) * 3 * US * ( o.io ? 12 : 1 ) + MS, t0 = 0;
    for ( size_t i = 0; i < np; i++ ) {
      size_t k = find( i ? oh + 1 + i * psz : 0 ), kh = i ? k : find( oh + 1 );
      u64 t = R->writes[ k ].second, tp = R->writes[ kh ].second; if ( !i ) t0 = t;
      u64 early = R->start + i * ( 1000000 / fps ) * US;
      if ( tp < early ) fail( "webcam-early", S( "picture %zu leaves %.3f ms before its time", i, ( early - tp ) / 1e6 ) );
      u64 kp = i ? find( oh + 1 + i * psz - 1 ) : 0; // end of the picture before
      if ( i && kp == k && tp < early ) fail( "webcam-early", "two pictures at once" );
      u64 ready = i ? std::max( t0 + i * SEC / fps, R->writes[ kp ].second ) : R->start;
      u64 latest = std::max( ready, R->freed_at[ k ] ) + eps + ( R->stalls[ k ] - ( i ? R->stalls[ kp ] : stalls0 ) ) * sm;
      if ( t > latest ) fail( "webcam-late", S( "picture %zu leaves %.3f ms later than it could", i, ( t - latest ) / 1e6 ) );
      W.counters[ "pictures_timed" ]++; if ( R->freed_at[ k ] > ready ) W.counters[ "pictures_held_up" ]++; if ( i && t > t0 + i * SEC / fps + 5 * MS ) W.counters[ "pictures_behind" ]++;
    }
    if ( !failed ) { // the end: success as soon as the input is over
      W.counters[ "ends_checked" ]++;
    }
  }
}
