// ---------- C21: the quality asked for ----------
// SSIM as usually computed (x264): the mean over 8x8 windows every four samples; sides are multiples of 16 here
static double ssim_of( const Bytes & a, const Bytes & b, int w, int h )
{
  int bw = w / 4, bh = h / 4; std::vector<std::array<int, 4>> s( bw * bh );
  for ( int y = 0; y < bh; y++ ) for ( int x = 0; x < bw; x++ ) for ( int j = 0; j < 4; j++ ) for ( int i = 0; i < 4; i++ ) {
    int p = a[ ( y * 4 + j ) * w + x * 4 + i ], q = b[ ( y * 4 + j ) * w + x * 4 + i ]; auto & t = s[ y * bw + x ];
    t[ 0 ] += p; t[ 1 ] += q; t[ 2 ] += p * p + q * q; t[ 3 ] += p * q;
  }
  double sum = 0; const double c1 = 416, c2 = 235963;
  for ( int y = 0; y + 1 < bh; y++ ) for ( int x = 0; x + 1 < bw; x++ ) {
    double m[ 4 ]; for ( int k = 0; k < 4; k++ ) m[ k ] = s[ y * bw + x ][ k ] + s[ y * bw + x + 1 ][ k ] + s[ ( y + 1 ) * bw + x ][ k ] + s[ ( y + 1 ) * bw + x + 1 ][ k ];
    double var = m[ 2 ] * 64 - m[ 0 ] * m[ 0 ] - m[ 1 ] * m[ 1 ], cov = m[ 3 ] * 64 - m[ 0 ] * m[ 1 ];
    sum += ( 2 * m[ 0 ] * m[ 1 ] + c1 ) * ( 2 * cov + c2 ) / ( ( m[ 0 ] * m[ 0 ] + m[ 1 ] * m[ 1 ] + c1 ) * ( var + c2 ) );
  }
  return sum / ( ( bw - 1 ) * ( bh - 1 ) );
}
static const double ssim_slack = 2e-4; // single precision, and sums in another order
struct C21 {
  Rng g; Scene sc; std::vector<Picture> pics; std::string shape;
  C21() : g( h2( W.cfg.seed, 0xc21 ) ) {}
  Opt calm() { Opt o; if ( g.chance( 0.4 ) ) { o.io = true; o.rates.sread = o.rates.swrite = 0.3 * g.unit(); } return o; }
  double ssim( const Picture & a, const Picture & b ) { return ssim_of( a.y, b.y, sc.w, sc.h ); }
  // the picture a frame shows after the frames before it
  Picture shows( const std::vector<Bytes> & before, const Bytes & f, const std::string & what )
  {
    auto v = before; v.push_back( f ); bool ok; auto ps = vpx_pictures( v, &ok );
    if ( !ok || ps.size() != v.size() ) fail( "not-decodable", what + ": the frame does not decode to a picture" );
    return ps.back();
  }
  std::string ssim_wanted() { double s = g.chance( 0.1 ) ? ( g.chance( 0.5 ) ? 1.0 : 0 ) : g.chance( 0.5 ) ? 0.9 + 0.1 * g.unit() : 0.3 + 0.7 * g.unit(); return S( "%.4f", s ); }
  std::string size_wanted() { int k = g.below( 10 ); return k == 0 ? "0" : k == 1 ? "10000000" : S( "%lu", 20 + ( 1ul << g.below( 13 ) ) + g.below( 400 ) ); }
  void inside(); void tool_(); void estimate();
};
// one encoder, and what copies of it make of the same picture
void C21::inside()
{
  int n = 1 + g.below( 3 ); bool rt = g.chance( 0.7 );
  static const int sizes[][ 2 ] = { { 64, 16 }, { 64, 32 }, { 64, 48 }, { 96, 32 }, { 64, 64 }, { 16, 16 }, { 32, 48 } };
  int k = g.below( 7 ); sc.seed = g.next(); sc.w = sizes[ k ][ 0 ]; sc.h = sizes[ k ][ 1 ]; sc.barcode = sc.w >= 64; sc.noise = g.below( 7 ) * 6; sc.cut_every = g.chance( 0.4 ) ? 1 + g.below( 3 ) : 0; sc.flat = g.chance( 0.1 ) ? 128 : 0;
  for ( int i = 0; i < n; i++ ) pics.push_back( sc.make( i ) );
  put_file( "in.y4m", y4m_make( pics ) );
  std::vector<std::string> args{ "in.y4m", rt ? "rt" : "best", g.chance( 0.15 ) ? "1" : "0" };
  std::vector<std::vector<std::string>> cmds; std::vector<bool> all;
  for ( int i = 0; i < n; i++ ) {
    bool every = i + 1 == n || g.chance( 0.4 ); all.push_back( every );
    std::vector<std::string> c; auto one = [ & ] { int m = g.below( 5 ); return m == 0 ? S( "y%lu", g.below( 128 ) ) : m < 3 ? "s" + ssim_wanted() : "f" + size_wanted(); };
    c.push_back( one() );
    if ( every ) { for ( int j = 0; j < 5; j++ ) c.push_back( one() ); c.push_back( "*" ); c.push_back( "e" ); }
    cmds.push_back( c ); std::string s; for ( auto & x : c ) s += ( s.empty() ? "" : "," ) + x;
    args.push_back( s );
  }
  Run r = must( "quality", args, calm() );
  std::string out( r.out.begin(), r.out.end() ); std::map<std::pair<int, int>, Bytes> made; std::vector<std::vector<Bytes>> at( n, std::vector<Bytes>( 128 ) ); std::vector<std::vector<size_t>> est( n, std::vector<size_t>( 128 ) );
  for ( size_t p = 0, e; p < out.size(); p = e + 1 ) {
    e = out.find( '\n', p ); if ( e == std::string::npos ) break;
    int pic, item, at_ = 0; char name[ 40 ]; if ( sscanf( out.c_str() + p, "%d %d %39s %n", &pic, &item, name, &at_ ) < 3 || pic >= n ) fail( "quality-output", "unreadable line" );
    std::string v = out.substr( p + at_, e - p - at_ ), want = cmds[ pic ].at( item );
    if ( name[ 0 ] == 'e' ) { est[ pic ][ atoi( name + 1 ) ] = strtoull( v.c_str(), 0, 10 ); continue; }
    Bytes b; for ( size_t i = 0; i + 1 < v.size(); i += 2 ) b.push_back( strtoul( v.substr( i, 2 ).c_str(), 0, 16 ) );
    if ( want == "*" ) at[ pic ][ atoi( name + 1 ) ] = b; else made[ { pic, item } ] = b;
  }
  std::vector<Bytes> before; int last = -1; // the quantizer of the last frame
  for ( int i = 0; i < n; i++ ) {
    auto frame = [ & ]( const Bytes & b, const std::string & c ) {
      auto h = vp8_header( b ); std::string what = S( "%s, %dx%d, picture %d, %s", rt ? "rt" : "best", sc.w, sc.h, i, c.c_str() );
      if ( !h.ok || h.key != ( i == 0 ) || !h.show ) fail( "frame-kind", what + ": not the one shown frame of the expected kind" );
      if ( h.key && ( h.w != sc.w || h.h != sc.h ) ) fail( "frame-kind", what + ": another size" );
      return h.q;
    };
    std::vector<double> ss( 128, -2 );
    if ( all[ i ] ) for ( int q = 0; q < 128; q++ ) {
      std::string c = S( "y%d", q ); if ( frame( at[ i ][ q ], c ) != q ) fail( "wrong-quantizer", S( "picture %d asked for quantizer %d has %d", i, q, frame( at[ i ][ q ], c ) ) );
      Picture p = shows( before, at[ i ][ q ], c ); ss[ q ] = ssim( p, pics[ i ] );
      static const int ac[ 128 ] = { 4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,60,62,64,66,68,70,72,74,76,78,80,82,84,86,88,90,92,94,96,98,100,102,104,106,108,110,112,114,116,119,122,125,128,131,134,137,140,143,146,149,152,155,158,161,164,167,170,173,177,181,185,189,193,197,201,205,209,213,217,221,225,229,234,239,245,249,254,259,264,269,274,279,284 };
      double mse = pow( 10, -psnr( p, pics[ i ] ) / 10 ) * 65025, rel = mse / ( ac[ q ] * ac[ q ] / 16. + 1 );
      double cs = 0; for ( size_t k = 0; k < p.u.size(); k++ ) { double du = (double) p.u[ k ] - pics[ i ].u[ k ], dv = (double) p.v[ k ] - pics[ i ].v[ k ]; cs += du * du + dv * dv; }
      double crel = cs / 2 / p.u.size() / ( ac[ q ] * ac[ q ] / 16. + 1 );
      if ( rel > 3 || crel > 3 ) fail( "quality-far", S( "%s, %dx%d, picture %d: quantizer %d leaves a mean squared error of %.1f in luma, %.1f times the step size allows, and %.1f times in chroma", rt ? "rt" : "best", sc.w, sc.h, i, q, mse, rel, crel ) ); // at most 1.3 in 40 000 encodings
      W.counters[ "qualities_measured" ]++;
    }
    for ( size_t j = 0; j < cmds[ i ].size(); j++ ) {
      const std::string & c = cmds[ i ][ j ]; if ( c == "*" || c == "e" ) continue;
      if ( !made.count( { i, (int) j } ) ) fail( "quality-output", "an encoding is missing" );
      const Bytes & b = made[ { i, (int) j } ]; int q = frame( b, c ); std::string what = S( "%s, %dx%d, picture %d, asked for %s", rt ? "rt" : "best", sc.w, sc.h, i, c.c_str() );
      if ( c[ 0 ] == 'y' && q != atoi( c.c_str() + 1 ) ) fail( "wrong-quantizer", S( "%s: quantizer %d", what.c_str(), q ) );
      Picture p = shows( before, b, what );
      if ( all[ i ] && b != at[ i ][ q ] ) fail( "not-the-quantizer", S( "%s: not what quantizer %d gives", what.c_str(), q ) );
      if ( c[ 0 ] == 's' ) {
        double want = atof( c.c_str() + 1 ), got = ssim( p, pics[ i ] );
        if ( got < want - ssim_slack && q > 0 ) fail( "quality-missed", S( "%s: SSIM %.5f with quantizer %d", what.c_str(), got, q ) );
        if ( all[ i ] && q < 127 && ss[ q + 1 ] >= want + ssim_slack ) fail( "finer-than-needed", S( "%s: quantizer %d, but %d also gives SSIM %.5f", what.c_str(), q, q + 1, ss[ q + 1 ] ) );
        W.counters[ q == 0 ? "ssim_finest" : q == 127 ? "ssim_coarsest" : "ssim_between" ]++;
      }
      if ( c[ 0 ] == 'f' ) {
        size_t want = strtoull( c.c_str() + 1, 0, 10 ); int lo = last < 0 ? 4 : std::max( 4, last - 16 ), hi = last < 0 ? 127 : std::min( 127, last + 16 );
        if ( q < lo || q > hi ) fail( "size-missed", S( "%s: quantizer %d, outside %d to %d", what.c_str(), q, lo, hi ) );
        if ( want == 0 && q != hi ) fail( "size-missed", S( "%s: quantizer %d, though %d is in reach", what.c_str(), q, hi ) );
        if ( want >= 1000000 && q != lo ) fail( "size-missed", S( "%s: quantizer %d, though %d is in reach", what.c_str(), q, lo ) );
        if ( all[ i ] && q < hi && est[ i ][ q ] > want ) fail( "size-missed", S( "%s: quantizer %d, estimated at %zu", what.c_str(), q, est[ i ][ q ] ) );
        if ( all[ i ] && q > lo && est[ i ][ q - 1 ] <= want ) fail( "size-missed", S( "%s: quantizer %d, but %d is estimated at %zu", what.c_str(), q, q - 1, est[ i ][ q - 1 ] ) );
        W.counters[ "sizes_checked" ]++;
      }
      W.counters[ "encodings_checked" ]++;
    }
    if ( all[ i ] ) {
      if ( at[ i ][ 0 ].size() < at[ i ][ 127 ].size() ) fail( "quality-order", "the finest quantizer gives a smaller frame than the coarsest" );
      if ( ss[ 0 ] < ss[ 127 ] - ssim_slack ) fail( "quality-order", "the finest quantizer gives a worse picture than the coarsest" );
    }
    before.push_back( made[ { i, 0 } ] ); if ( rt ) last = vp8_header( before.back() ).q;
  }
}
// a picture that is alike all over: the estimated size is about the real one
void C21::estimate()
{
  sc.seed = g.next(); sc.w = 64 * ( 1 + g.below( 3 ) ); sc.h = 64 * ( 1 + g.below( 3 ) ); sc.barcode = false; sc.flat = 128; sc.noise = 20 + g.below( 60 ); bool rt = g.chance( 0.8 );
  int n = 1 + g.below( 2 ); for ( int i = 0; i < n; i++ ) pics.push_back( sc.make( g.next() ) );
  put_file( "in.y4m", y4m_make( pics ) );
  std::string cmd; int q0 = g.below( 70 ), q1 = g.below( 90 ); cmd = S( "y%d,y%d,e", q0, q1 );
  std::vector<std::string> args{ "in.y4m", rt ? "rt" : "best", "0" }; for ( int i = 0; i < n; i++ ) args.push_back( cmd );
  Run r = must( "quality", args ); std::string out( r.out.begin(), r.out.end() ); std::map<std::pair<int, int>, size_t> real, est;
  for ( size_t p = 0, e; p < out.size(); p = e + 1 ) {
    e = out.find( '\n', p ); if ( e == std::string::npos ) break;
    int pic, item, at_ = 0; char name[ 40 ]; if ( sscanf( out.c_str() + p, "%d %d %39s %n", &pic, &item, name, &at_ ) < 3 ) fail( "quality-output", "unreadable line" );
    if ( name[ 0 ] == 'e' ) est[ { pic, atoi( name + 1 ) } ] = strtoull( out.c_str() + p + at_, 0, 10 ); else real[ { pic, atoi( name + 1 ) } ] = ( e - p - at_ ) / 2;
  }
  for ( auto & x : real ) {
    double ratio = (double) est[ x.first ] / x.second; 
    if ( ratio > 6 || ratio < 0.4 ) fail( "estimate-far", S( "%s, %dx%d, picture %d, quantizer %d: estimated at %zu bytes, %zu in fact", rt ? "rt" : "best", sc.w, sc.h, x.first.first, x.first.second, est[ x.first ], x.second ) ); // 1 to 2.7
    W.counters[ "estimates_checked" ]++;
  }
}
// the same asked of the command-line encoder
void C21::tool_()
{
  int n = 1 + g.below( 6 ); sc = scene_of( g ); if ( g.chance( 0.5 ) ) { sc.barcode = false; sc.w = 1 + g.below( 90 ); sc.h = 1 + g.below( 70 ); }
  bool whole = sc.w % 16 == 0 && sc.h % 16 == 0;
  for ( int i = 0; i < n; i++ ) pics.push_back( sc.make( i ) );
  put_file( "in.y4m", y4m_make( pics ) );
  bool rt = g.chance( 0.6 ), two = g.chance( 0.15 ), pipe = g.chance( 0.2 ); int m = g.below( 3 );
  std::vector<std::string> args{ "-i", "y4m", "-o", "out", "-q", rt ? "rt" : "best" }, qa{ "in.y4m", rt ? "rt" : "best", two ? "1" : "0" }; if ( two ) args.push_back( "--two-pass" );
  std::string want; std::vector<size_t> sizes; std::vector<Bytes> before;
  if ( g.chance( 0.25 ) ) { // continuing another video
    std::vector<Picture> old; for ( u64 i = 0, k = 1 + g.below( 3 ); i < k; i++ ) old.push_back( sc.make( g.chance( 0.3 ) ? 1000 + i : 0 ) );
    before = vpx_encode( old, vpx_opt( g, false ) ); put_file( "old", ivf_make( sc.w, sc.h, before ) ); must( "xc-dump", { "old", "state" } );
    args.insert( args.end(), { "-I", "state" } ); W.counters[ "videos_continued" ]++;
  }
  if ( m == 0 ) { want = S( "%lu", g.below( 128 ) ); args.insert( args.end(), { "-y", want } ); for ( int i = 0; i < n; i++ ) qa.push_back( "y" + want ); }
  if ( m == 1 ) { want = ssim_wanted(); if ( g.chance( 0.1 ) ) want = "0.99"; else args.insert( args.end(), { "-s", want } ); for ( int i = 0; i < n; i++ ) qa.push_back( "s" + want ); }
  if ( m == 2 ) {
    std::string t; int lines = g.chance( 0.3 ) ? 1 + g.below( n ) : n; bool ends = g.chance( 0.4 );
    for ( int i = 0; i < lines; i++ ) { auto s = ends ? ( g.chance( 0.5 ) ? std::string( "0" ) : std::string( "10000000" ) ) : size_wanted(); t += s + "\n"; sizes.push_back( strtoull( s.c_str(), 0, 10 ) ); }
    while ( (int) sizes.size() < n ) sizes.push_back( sizes.back() ); // the last line goes on
    if ( g.chance( 0.5 ) ) t.pop_back();
    put_file( "sizes", Bytes( t.begin(), t.end() ) ); args.insert( args.end(), { "-F", "sizes" } );
    for ( auto s : sizes ) qa.push_back( S( "f%zu", s ) );
  }
  Opt o = calm(); if ( pipe && m != 2 ) { o.in = vfs_read( "in.y4m" ); args.push_back( "-" ); } else args.push_back( "in.y4m" );
  Run r = must( "xc-enc", args, o ); Ivf v = ivf_parse( vfs_read( "out" ) );
  if ( !v.ok || v.truncated || (int) v.frames.size() != n || v.w != sc.w || v.h != sc.h ) fail( "frame-kind", S( "%s: %zu frames for %d pictures", r.what.c_str(), v.frames.size(), n ) );
  auto whole_video = before; whole_video.insert( whole_video.end(), v.frames.begin(), v.frames.end() );
  bool ok; auto ps = vpx_pictures( whole_video, &ok ); ps.erase( ps.begin(), ps.begin() + std::min( ps.size(), shown( before ) ) ); if ( !ok || (int) ps.size() != n ) fail( "not-decodable", r.what + ": the frames do not decode to as many pictures" );
  int last = -1;
  for ( int i = 0; i < n; i++ ) {
    auto h = vp8_header( v.frames[ i ] ); if ( !h.ok || h.key != ( i == 0 && before.empty() ) || !h.show ) fail( "frame-kind", S( "%s: frame %d is not the one shown frame of the expected kind", r.what.c_str(), i ) );
    if ( m == 0 && h.q != atoi( want.c_str() ) ) fail( "wrong-quantizer", S( "%s: frame %d has quantizer %d", r.what.c_str(), i, h.q ) );
    if ( m == 1 && whole && h.q > 0 && ssim( ps[ i ], pics[ i ] ) < atof( want.c_str() ) - ssim_slack ) fail( "quality-missed", S( "%s: SSIM %.5f with quantizer %d in frame %d", r.what.c_str(), ssim( ps[ i ], pics[ i ] ), h.q, i ) );
    if ( m == 2 ) {
      int lo = last < 0 ? 4 : std::max( 4, last - 16 ), hi = last < 0 ? 127 : std::min( 127, last + 16 );
      if ( h.q < lo || h.q > hi || ( sizes[ i ] == 0 && h.q != hi ) || ( sizes[ i ] >= 1000000 && h.q != lo ) ) fail( "size-missed", S( "%s: frame %d has quantizer %d for %zu bytes, %d to %d are in reach", r.what.c_str(), i, h.q, sizes[ i ], lo, hi ) );
    }
    if ( rt ) last = h.q; // in real time the quality changes by steps
    W.counters[ "frames_checked" ]++;
  }
  if ( before.empty() && program_exists( "quality" ) ) { // the same as the encoder makes when asked directly
    Run b = must( "quality", qa, calm() ); std::string all( b.out.begin(), b.out.end() ), want;
    for ( int i = 0; i < n; i++ ) { want += S( "%d 0 ", i ) + qa[ 3 + i ] + " "; for ( u8 x : v.frames[ i ] ) { want += "0123456789abcdef"[ x >> 4 ]; want += "0123456789abcdef"[ x & 15 ]; } want += "\n"; }
    if ( all != want ) fail( "not-the-quantizer", r.what + ": not the frames that the encoder makes when asked for the same" );
    W.counters[ "tool_encodings_compared" ]++;
  }
}
void scenario_c21() { C21 c; if ( W.cfg.seed % 12 == 5 && program_exists( "quality" ) ) { c.estimate(); return; } if ( c.g.chance( 0.5 ) && program_exists( "quality" ) ) c.inside(); else c.tool_(); }
// ---------- C22: reports ----------
static std::string words( const Bytes & b ) // lines with single spaces, without empty ones
{
  std::string o, l; auto flush = [ & ] { while ( l.size() && l.back() == ' ' ) l.pop_back(); if ( l.size() ) o += l + "\n"; l.clear(); };
  for ( u8 c : b ) if ( c == '\n' ) flush(); else if ( c == ' ' || c == '\t' ) { if ( l.size() && l.back() != ' ' ) l += ' '; } else l += c;
  flush(); return o;
}
static std::string first_difference( const std::string & a, const std::string & b )
{
  size_t i = 0; while ( i < a.size() && i < b.size() && a[ i ] == b[ i ] ) i++;
  size_t s = i ? a.rfind( '\n', i - 1 ) : std::string::npos; s = s == std::string::npos ? 0 : s + 1;
  return "\"" + a.substr( s, std::min<size_t>( a.find( '\n', s ) - s, 100 ) ) + "\" instead of \"" + ( s < b.size() ? b.substr( s, std::min<size_t>( b.find( '\n', s ) - s, 100 ) ) : "" ) + "\"";
}
struct C22 {
  Rng g; C22() : g( h2( W.cfg.seed, 0xc22 ) ) {}
  Opt calm() { Opt o; if ( g.chance( 0.4 ) ) { o.io = true; o.rates.sread = o.rates.swrite = 0.3 * g.unit(); } return o; }
  void same( const Run & r, const std::string & got, const std::string & want ) { if ( got != want ) fail( "report-wrong", r.what + " says " + first_difference( got, want ) ); }
  void sizes(); void dissect(); void ssim_(); void states_();
};
void C22::sizes()
{
  std::vector<Bytes> f; for ( u64 i = 0, n = g.below( 12 ); i < n; i++ ) f.push_back( junk( g, g.chance( 0.1 ) ? 70000 + g.below( 5000 ) : g.below( 700 ) ) );
  Bytes b = ivf_make( 1 + g.below( 5000 ), 1 + g.below( 5000 ), f, g.next() ); put_file( "v", b );
  Run r = must( "xc-framesize", { "v" }, calm() ); std::string want;
  for ( size_t i = 0; i < f.size(); i++ ) want += S( "%08zu %zu\n", i, f[ i ].size() );
  same( r, words( r.out ), want + S( "Total %zu\n", b.size() ) ); W.counters[ "reports_checked" ]++;
}
void C22::dissect()
{
  int kind = g.below( 3 ); History z = make_stream( g, false, kind ); auto & f = z.f; if ( f.empty() ) return;
  put_file( "v", ivf_make( z.sc.w, z.sc.h, f ) ); bool probs = g.chance( 0.5 );
  auto report = [ & ]( size_t i, size_t number ) { bool key = vp8_header( f[ i ] ).key; return S( ">> Frame #%zu %s\nSize: %zu B\n", number, key ? "(KF)" : "(IF)", f[ i ].size() ) + vp8_report( f[ i ], probs ); };
  std::vector<std::string> a; if ( probs ) a.push_back( "-p" );
  { auto x = a; x.push_back( "v" ); Run r = must( "xc-dissect", x, calm() ); std::string want; for ( size_t i = 0; i < f.size(); i++ ) want += report( i, i ); same( r, words( r.out ), want ); }
  size_t k = g.below( f.size() );
  { auto x = a; x.insert( x.end(), { "-f", S( "%zu", k ), "v" } ); Run r = must( "xc-dissect", x, calm() ); same( r, words( r.out ), report( k, k ) ); }
  if ( g.chance( 0.8 ) ) { // everything about one frame, alone, among the others, and from a saved state
    bool coefs = g.chance( 0.7 ); a.push_back( "-m" ); if ( coefs ) a.push_back( "-c" );
    auto all = a, only = a; all.push_back( "v" ); only.insert( only.end(), { "-f", S( "%zu", k ), "v" } ); Run whole = must( "xc-dissect", all ), one = must( "xc-dissect", only, calm() ); std::string w, at_k;
    MbReader reader; for ( size_t i = 0; i < f.size(); i++ ) { std::string t = report( i, i ) + "[Macroblocks]\n" + reader.next( f[ i ], coefs ); w += t; if ( i == k ) at_k = t; }
    W.counters[ "zero_runs" ] += reader.zero_runs();
    same( whole, words( whole.out ), w ); same( one, words( one.out ), at_k );
    int n = f.size() * ( ( z.sc.w + 15 ) / 16 ) * ( ( z.sc.h + 15 ) / 16 );
    if ( k ) { // the rest of the stream, from the state before it
      put_file( "head", ivf_make( z.sc.w, z.sc.h, { f.begin(), f.begin() + k } ) ); put_file( "rest", ivf_make( z.sc.w, z.sc.h, { f.begin() + k, f.end() } ) );
      Run d = tool( "xc-dump", { "head", "state" } );
      if ( d.ok() ) { // the states' golden and alternate pictures do not matter to a report
        StateFile sf( vfs_read( "state" ) ); (void) sf; auto x = a; x.insert( x.end(), { "-f", "0", "-s", "state", "rest" } ); Run r = must( "xc-dissect", x, calm() );
        std::string p = at_k, v = words( r.out ); p = p.substr( std::min( p.size(), p.find( '(' ) ) ); v = v.substr( std::min( v.size(), v.find( '(' ) ) ); same( r, v, p ); W.counters[ "resumed_reports" ]++;
      }
    }
    W.counters[ "macroblocks_reported" ] += n;
  }
  { // frames whose modes are known: every macroblock as it is in one of the references
    CtlFrame c; c.w = z.sc.w; c.h = z.sc.h; c.ref = g.below( 3 ); auto h = f; h.push_back( c.make() ); put_file( "ctl", ivf_make( z.sc.w, z.sc.h, h ) );
    Run r = must( "xc-dissect", { "-m", "-c", "-f", S( "%zu", f.size() ), "ctl" }, calm() ); std::string o = words( r.out ); size_t n = 0, p = 0;
    static const char * const ref[] = { "LAST_FRAME", "GOLDEN_FRAME", "ALTREF_FRAME" }; std::string want = S( "<Y>\nPrediction Mode: ZEROMV\nBase Motion Vector: ( 0, 0 )\nReference: %s\n", ref[ c.ref ] );
    while ( ( p = o.find( want, p ) ) != std::string::npos ) p++, n++;
    if ( n != size_t( ( ( z.sc.w + 15 ) / 16 ) * ( ( z.sc.h + 15 ) / 16 ) ) ) fail( "report-wrong", S( "%s: %zu macroblocks with the modes they have", r.what.c_str(), n ) );
    if ( o.find( "DCT coeffs" ) != std::string::npos ) fail( "report-wrong", r.what + ": coefficients where there are none" );
  }
  W.counters[ "reports_checked" ] += 2 + f.size();
}
void C22::ssim_()
{
  Scene sc = scene_of( g ); static const int sizes[][ 2 ] = { { 64, 16 }, { 64, 32 }, { 80, 48 }, { 96, 64 }, { 64, 64 }, { 16, 16 }, { 48, 32 } }; int k = g.below( 7 ); sc.w = sizes[ k ][ 0 ]; sc.h = sizes[ k ][ 1 ]; if ( sc.w < 64 ) sc.barcode = false;
  std::vector<Picture> v[ 2 ]; std::string fmt[ 2 ];
  for ( int i = 0; i < 2; i++ ) {
    int n = 1 + g.below( 6 ); Scene s = sc; if ( i && g.chance( 0.2 ) ) s.seed = g.next(); if ( i ) s.noise = g.below( 30 ); fmt[ i ] = g.chance( 0.5 ) ? "ivf" : "y4m";
    for ( int j = 0; j < n; j++ ) v[ i ].push_back( s.make( j ) );
    if ( fmt[ i ] == "y4m" ) put_file( N( "v", i ), y4m_make( v[ i ] ) );
    else { VpxEncOpt o = vpx_opt( g, g.chance( 0.3 ) ); o.profile = 0; auto f = vpx_encode( v[ i ], o ); if ( f.empty() || !vp8_header( f.back() ).show ) return; put_file( N( "v", i ), ivf_make( sc.w, sc.h, f ) ); v[ i ] = vpx_pictures( f ); }
  }
  bool all = g.chance( 0.5 ); std::vector<std::string> a{ "-1", fmt[ 0 ], "-2", fmt[ 1 ], "v0", "v1" }; if ( all ) a.insert( a.begin(), "-a" );
  Run r = must( "xc-ssim", a, calm() ); std::string o = words( r.out ); size_t n = std::min( v[ 0 ].size(), v[ 1 ].size() ), p = 0;
  for ( size_t i = 0; i < n; i++ ) {
    size_t e = o.find( '\n', p ); if ( e == std::string::npos ) fail( "report-wrong", S( "%s: %zu lines for %zu pictures", r.what.c_str(), i, n ) );
    double x[ 3 ] = { -9, -9, -9 }; int got = sscanf( o.substr( p, e - p ).c_str(), "%lf %lf %lf", x, x + 1, x + 2 ); p = e + 1;
    if ( got != ( all ? 3 : 1 ) ) fail( "report-wrong", r.what + ": a line with too many or too few numbers" );
    const Bytes * y[ 3 ][ 2 ] = { { &v[ 0 ][ i ].y, &v[ 1 ][ i ].y }, { &v[ 0 ][ i ].u, &v[ 1 ][ i ].u }, { &v[ 0 ][ i ].v, &v[ 1 ][ i ].v } };
    for ( int c = 0; c < got; c++ ) { double want = ssim_of( *y[ c ][ 0 ], *y[ c ][ 1 ], c ? sc.w / 2 : sc.w, c ? sc.h / 2 : sc.h ); if ( !( fabs( want - x[ c ] ) < ssim_slack ) ) fail( "report-wrong", S( "%s: picture %zu, plane %d: %.6f instead of %.6f", r.what.c_str(), i, c, x[ c ], want ) ); W.counters[ "ssims_compared" ]++; }
  }
  if ( p != o.size() ) fail( "report-wrong", r.what + ": more lines than pictures" );
  W.counters[ "reports_checked" ]++;
}
void C22::states_()
{
  // two states: of two places of a stream, of almost the same streams, of pictures of other sizes, or the same
  History z = make_stream( g, false, g.below( 3 ) ); if ( z.f.size() < 2 ) return; int how = g.below( 5 );
  std::vector<Bytes> a( z.f.begin(), z.f.begin() + 1 + g.below( z.f.size() ) ), b = a; int w2 = z.sc.w, h2_ = z.sc.h; Scene sc = z.sc;
  if ( how == 1 ) b.assign( z.f.begin(), z.f.begin() + 1 + g.below( z.f.size() ) );
  if ( how == 2 ) b.push_back( random_ctl( g, sc, g.chance( 0.3 ), g.chance( 0.3 ), true ).make() );
  if ( how == 3 ) { CtlFrame c; c.w = sc.w; c.h = sc.h; c.keep = true; int k = g.below( 4 ); if ( k == 0 ) c.coef[ g.below( 1056 ) ] = 1 + g.below( 255 ); if ( k == 1 ) c.mv[ g.below( 38 ) ] = g.below( 128 ); if ( k == 2 ) for ( int i = 0; i < 4; i++ ) c.ymode.push_back( 1 + g.below( 255 ) ); if ( k == 3 ) for ( int i = 0; i < 3; i++ ) c.uvmode.push_back( 1 + g.below( 255 ) ); b.push_back( c.make() ); }
  if ( how == 4 && g.chance( 0.5 ) ) { w2 = 1 + g.below( 90 ); h2_ = 1 + g.below( 60 ); RandFrames r( g.next(), w2, h2_ ); b = { r.make( true ) }; }
  put_file( "a", ivf_make( sc.w, sc.h, a ) ); put_file( "b", ivf_make( w2, h2_, b ) );
  if ( !tool( "xc-dump", { "a", "sa" } ).ok() || !tool( "xc-dump", { "b", "sb" } ).ok() ) return;
  Bytes x = vfs_read( "sa" ), y = vfs_read( "sb" ); bool same_ = x == y; StateFile fx( x ), fy( y ); if ( !fx.ok || !fy.ok ) return;
  auto sub = [ & ]( const Bytes & v, size_t p, size_t n ) { return Bytes( v.begin() + std::min( v.size(), p ), v.begin() + std::min( v.size(), p + n ) ); };
  auto differ = [ & ]( size_t px, size_t nx, size_t py, size_t ny ) { return sub( x, px, nx ) != sub( y, py, ny ); };
  { // comp-states: bits, then the part of the samples of the last picture that differ and by how much
    Run r = tool( "comp-states", { "sa", "sb" }, calm() ); unsigned bits = 8 * std::abs( (long) x.size() - (long) y.size() ); for ( size_t i = 0; i < std::min( x.size(), y.size() ); i++ ) bits += __builtin_popcount( x[ i ] ^ y[ i ] );
    std::string o = words( r.out ); unsigned n = ~0u; double part = -1, mean = -1; char m[ 40 ] = ""; int got = sscanf( o.c_str(), "%u %lf %39s", &n, &part, m ); mean = atof( m );
    auto mbs = [ & ]( const Bytes & v, size_t p ) { return ( ( v[ p ] | v[ p + 1 ] << 8 ) + 15 ) / 16; }; bool sized = mbs( x, fx.refs + 5 ) == mbs( y, fy.refs + 5 ) && mbs( x, fx.refs + 7 ) == mbs( y, fy.refs + 7 ); // the pictures are stored in whole macroblocks
    if ( !r.exited || n != bits || ( r.status == 0 ) != same_ || ( same_ && o != "0\n" ) ) fail( "report-wrong", S( "%s: status %d and \"%s\" for states that differ in %u bits", r.what.c_str(), r.status, o.substr( 0, 40 ).c_str(), bits ) );
    if ( !same_ && sized ) {
      size_t rx = fx.refs + 14, ry = fy.refs + 14, len = std::min( x.size() - rx, y.size() - ry ), d = 0; double sum = 0;
      for ( size_t i = 0; i < len; i++ ) { int e = std::abs( (int) x[ rx + i ] - (int) y[ ry + i ] ); d += e > 0; sum += e; }
      double wp = (double) d / len, wm = d ? sum / d : 0;
      if ( got != 3 || fabs( part - wp ) > 1e-5 * ( 1 + wp ) || ( d && fabs( mean - wm ) > 1e-5 * ( 1 + wm ) ) ) fail( "report-wrong", S( "%s: %s for states with %zu of %zu samples different, by %f on average", r.what.c_str(), o.c_str(), d, len, wm ) );
    } else if ( !same_ && r.err.empty() ) fail( "silent-failure", r.what + ": states of different sizes are compared without a message" );
  }
  { // xc-diff: which parts are different
    Run r = tool( "xc-diff", { "sa", "sb" }, calm() ); std::string want;
    if ( !same_ ) {
      want = "Decoders are different.\n"; bool dim = differ( 10, 4, 10, 4 ), seg = differ( fx.seg, fx.seg_len, fy.seg, fy.seg_len ), lf = differ( fx.lf, fx.lf_len, fy.lf, fy.lf_len ), prob = differ( fx.prob, fx.prob_len, fy.prob, fy.prob_len ), ref = differ( fx.refs, fx.refs_len, fy.refs, fy.refs_len );
      if ( dim ) want += "Dimensions are different.\n";
      if ( dim || seg || lf || prob ) want += "Decoder states are diffrent.\n";
      if ( prob ) {
        want += "Probability tables are different.\n"; size_t p = fx.prob + 5, q = fy.prob + 5;
        if ( differ( p, 1056, q, 1056 ) ) want += "Coefficient probabilities are different.\n"; p += 1056, q += 1056;
        if ( differ( p, 4, q, 4 ) ) want += "Y-mode probabilities are different.\n"; p += 4, q += 4;
        if ( differ( p, 3, q, 3 ) ) want += "UV-mode probabilities are different.\n"; p += 3, q += 3;
        if ( differ( p, 38, q, 38 ) ) want += "Motion vector probabilities are different.\n";
      }
      if ( seg ) want += "Segmentations are different.\n"; if ( lf ) want += "Filter adjustments are different.\n";
      if ( ref ) want += "References are different.\nLast references are different.\nGolden references are different.\nAlternative references are different.\n"; // a state file holds one picture
      for ( const char * k : { "dim", "seg", "lf", "prob", "ref" } ) W.counters[ S( "differ_%s", k ) ] += k[ 0 ] == 'd' ? dim : k[ 0 ] == 's' ? seg : k[ 0 ] == 'l' ? lf : k[ 0 ] == 'p' ? prob : ref;
    } else W.counters[ "differ_not" ]++;
    if ( !r.exited || ( r.status == 0 ) != same_ ) fail( "report-wrong", S( "%s: status %d for %s states", r.what.c_str(), r.status, same_ ? "equal" : "different" ) );
    same( r, words( r.out ), want );
  }
  W.counters[ "reports_checked" ] += 2;
}
void scenario_c22() { C22 c; switch ( c.g.below( 8 ) ) { case 0: c.sizes(); break; case 1: case 2: c.ssim_(); break; case 3: case 4: case 5: c.dissect(); break; default: c.states_(); } }
