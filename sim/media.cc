#include "media.hh"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <jpeglib.h>
#include <unistd.h>

u64 picture_hash( const Picture & p )
{
  return h3( hbytes( p.y.data(), p.y.size() ), hbytes( p.u.data(), p.u.size() ), hbytes( p.v.data(), p.v.size() ) + p.w * 65536ull + p.h );
}
bool jpeg_odd_rows = false;
Bytes make_jpeg( const Picture & p )
{
  jpeg_compress_struct c; jpeg_error_mgr e;
  c.err = jpeg_std_error( &e );
  jpeg_create_compress( &c );
  unsigned char * out = nullptr; unsigned long n = 0;
  jpeg_mem_dest( &c, &out, &n );
  c.image_width = p.w; c.image_height = p.h; c.input_components = 3; c.in_color_space = JCS_YCbCr;
  jpeg_set_defaults( &c );
  jpeg_set_quality( &c, 90, TRUE );
  c.raw_data_in = TRUE;
  // 4:2:2 sampling, as webcams deliver
  c.comp_info[ 0 ].h_samp_factor = 2; c.comp_info[ 0 ].v_samp_factor = 1;
  c.comp_info[ 1 ].h_samp_factor = 1; c.comp_info[ 1 ].v_samp_factor = 1;
  c.comp_info[ 2 ].h_samp_factor = 1; c.comp_info[ 2 ].v_samp_factor = 1;
  jpeg_start_compress( &c, TRUE );
  while ( c.next_scanline < c.image_height ) {
    JSAMPROW y[ 8 ], u[ 8 ], v[ 8 ];
    for ( int i = 0; i < 8; i++ ) {
      int r = std::min<int>( c.next_scanline + i, p.h - 1 );
      y[ i ] = (JSAMPROW) &p.y[ (size_t) r * p.w ];
      // odd rows have chroma of their own, which the pictures taken do not use
      const Bytes & pu = r % 2 && jpeg_odd_rows ? p.v : p.u, & pv = r % 2 && jpeg_odd_rows ? p.u : p.v;
      u[ i ] = (JSAMPROW) &pu[ (size_t) ( r / 2 ) * ( p.w / 2 ) ];
      v[ i ] = (JSAMPROW) &pv[ (size_t) ( r / 2 ) * ( p.w / 2 ) ];
    }
    JSAMPARRAY planes[ 3 ] = { y, u, v };
    jpeg_write_raw_data( &c, planes, 8 );
  }
  jpeg_finish_compress( &c );
  jpeg_destroy_compress( &c );
  Bytes b( out, out + n );
  free( out );
  return b;
}
Picture jpeg_picture( const Bytes & b )
{
  jpeg_decompress_struct c; jpeg_error_mgr e;
  c.err = jpeg_std_error( &e );
  jpeg_create_decompress( &c );
  jpeg_mem_src( &c, (unsigned char *) b.data(), b.size() );
  jpeg_read_header( &c, TRUE ); c.raw_data_out = TRUE; jpeg_start_decompress( &c );
  Picture p; p.w = c.image_width; p.h = c.image_height; p.y.resize( p.w * p.h ); p.u.resize( p.w / 2 * ( p.h / 2 ) ); p.v = p.u;
  Bytes u( p.w / 2 * p.h ), v( p.w / 2 * p.h );
  while ( c.output_scanline < c.output_height ) {
    JSAMPROW ry[ 8 ], ru[ 8 ], rv[ 8 ];
    for ( int i = 0; i < 8; i++ ) { size_t r = c.output_scanline + i; ry[ i ] = &p.y[ r * p.w ]; ru[ i ] = &u[ r * ( p.w / 2 ) ]; rv[ i ] = &v[ r * ( p.w / 2 ) ]; }
    JSAMPARRAY planes[ 3 ] = { ry, ru, rv };
    jpeg_read_raw_data( &c, planes, 8 );
  }
  jpeg_finish_decompress( &c ); jpeg_destroy_decompress( &c );
  for ( int r = 0; r < p.h / 2; r++ ) { memcpy( &p.u[ r * ( p.w / 2 ) ], &u[ 2 * r * ( p.w / 2 ) ], p.w / 2 ); memcpy( &p.v[ r * ( p.w / 2 ) ], &v[ 2 * r * ( p.w / 2 ) ], p.w / 2 ); }
  return p;
}

// ---------- libvpx ----------
struct vctx { const char * name; void * iface; int err; const char * err_detail; long flags; void * cfg; void * priv; u64 pad[ 8 ]; };
struct vimg {
  int fmt, cs, range; unsigned w, h, bit_depth, d_w, d_h, r_w, r_h, xs, ys;
  unsigned char * planes[ 4 ]; int stride[ 4 ]; int bps; };
static void * vpx_sym( const char * n )
{
  static void * h = dlopen( "libvpx.so.9", RTLD_NOW | RTLD_LOCAL );
  if ( !h ) { fprintf( stderr, "sim: libvpx: %s\n", dlerror() ); _exit( 70 ); }
  void * p = dlsym( h, n );
  if ( !p ) { fprintf( stderr, "sim: libvpx has no %s\n", n ); _exit( 70 ); }
  return p;
}
VpxDec::VpxDec()
{
  InSim _;
  static auto iface = ( (void * ( * )()) vpx_sym( "vpx_codec_vp8_dx" ) )();
  static auto init = (int ( * )( vctx *, void *, const void *, long, int )) vpx_sym( "vpx_codec_dec_init_ver" );
  vctx * c = (vctx *) calloc( 1, sizeof( vctx ) );
  struct { unsigned threads, w, h; } cfg = { 1, 0, 0 };
  static int ver = 0;
  int r = 1;
  if ( ver ) r = init( c, iface, &cfg, 0, ver );
  else for ( int v = 3; v < 40 && r; v++ ) { memset( c, 0, sizeof *c ); r = init( c, iface, &cfg, 0, v ); if ( !r ) ver = v; }
  if ( r ) { fprintf( stderr, "sim: cannot initialise libvpx\n" ); _exit( 70 ); }
  ctx = c;
}
VpxDec::~VpxDec()
{
  InSim _;
  static auto destroy = (int ( * )( vctx * )) vpx_sym( "vpx_codec_destroy" );
  destroy( (vctx *) ctx ); free( ctx );
}
bool VpxDec::decode( const Bytes & f, Picture * out, bool * shown )
{
  InSim _;
  static auto dec = (int ( * )( vctx *, const u8 *, unsigned, void *, long )) vpx_sym( "vpx_codec_decode" );
  static auto get = (vimg * (*) ( vctx *, void ** )) vpx_sym( "vpx_codec_get_frame" );
  *shown = false;
  if ( f.empty() ) return false;
  if ( dec( (vctx *) ctx, f.data(), f.size(), nullptr, 0 ) ) return false;
  void * it = nullptr;
  vimg * im = get( (vctx *) ctx, &it );
  if ( !im ) return true;
  *shown = true;
  out->w = im->d_w; out->h = im->d_h;
  auto plane = [ & ]( int p, int w, int h, Bytes & b ) {
    b.resize( (size_t) w * h );
    for ( int r = 0; r < h; r++ ) memcpy( &b[ (size_t) r * w ], im->planes[ p ] + (size_t) r * im->stride[ p ], w );
  };
  plane( 0, out->w, out->h, out->y );
  plane( 1, ( out->w + 1 ) / 2, ( out->h + 1 ) / 2, out->u );
  plane( 2, ( out->w + 1 ) / 2, ( out->h + 1 ) / 2, out->v );
  return true;
}

std::vector<Bytes> vpx_encode( const std::vector<Picture> & ps, const VpxEncOpt & o )
{
  InSim _;
  std::vector<Bytes> out;
  if ( ps.empty() ) return out;
  static auto iface = ( (void * ( * )()) vpx_sym( "vpx_codec_vp8_cx" ) )();
  static auto defcfg = (int ( * )( void *, void *, unsigned )) vpx_sym( "vpx_codec_enc_config_default" );
  static auto init = (int ( * )( vctx *, void *, const void *, long, int )) vpx_sym( "vpx_codec_enc_init_ver" );
  static auto enc = (int ( * )( vctx *, void *, int64_t, unsigned long, long, unsigned long )) vpx_sym( "vpx_codec_encode" );
  static auto getd = (u8 * (*) ( vctx *, void ** )) vpx_sym( "vpx_codec_get_cx_data" );
  static auto destroy = (int ( * )( vctx * )) vpx_sym( "vpx_codec_destroy" );
  static auto wrap = (void * (*) ( void *, int, unsigned, unsigned, unsigned, u8 * )) vpx_sym( "vpx_img_wrap" );
  static auto imgfree = (void ( * )( void * )) vpx_sym( "vpx_img_free" );
  static auto ctl = (int ( * )( vctx *, int, ... )) vpx_sym( "vpx_codec_control_" );
  u32 cfg[ 512 ]; memset( cfg, 0, sizeof cfg );
  if ( defcfg( iface, cfg, 0 ) ) { fprintf( stderr, "sim: libvpx encoder defaults\n" ); _exit( 70 ); }
  cfg[ 1 ] = 1; cfg[ 2 ] = o.profile; cfg[ 3 ] = ps[ 0 ].w; cfg[ 4 ] = ps[ 0 ].h; cfg[ 7 ] = 1; cfg[ 8 ] = 24; cfg[ 9 ] = o.resilient ? 1 : 0; cfg[ 10 ] = 0; cfg[ 11 ] = o.lag;
  cfg[ 12 ] = 0; cfg[ 28 ] = 20000; cfg[ 29 ] = std::max( 0, ( o.q - o.q_span ) / 2 ); cfg[ 30 ] = std::min( 63, ( o.q + o.q_span ) / 2 );
  vctx c; memset( &c, 0, sizeof c );
  static int ver = 0; int r = 1;
  if ( ver ) r = init( &c, iface, cfg, 0, ver );
  else for ( int v = 3; v < 60 && r; v++ ) { memset( &c, 0, sizeof c ); r = init( &c, iface, cfg, 0, v ); if ( !r ) ver = v; }
  if ( r ) { fprintf( stderr, "sim: cannot initialise the libvpx encoder (%d)\n", r ); _exit( 70 ); }
  ctl( &c, 13, 0 ); // speed
  if ( o.partitions ) ctl( &c, 18, o.partitions );
  if ( o.altref ) ctl( &c, 14, 1 );
  if ( o.sharpness ) ctl( &c, 16, o.sharpness );
  int mbw = ( ps[ 0 ].w + 15 ) / 16, mbh = ( ps[ 0 ].h + 15 ) / 16;
  Bytes map;
  auto drain = [ & ] { void * it = nullptr; while ( u8 * pkt = getd( &c, &it ) ) { if ( *(int *) pkt ) continue; u8 * buf = *(u8 **) ( pkt + 8 ); size_t n = *(size_t *) ( pkt + 16 ); out.emplace_back( buf, buf + n ); } };
  Rng g( h2( o.flags_seed, 0xe4c ) );
  for ( size_t i = 0; i < ps.size(); i++ ) {
    if ( o.segments && i >= (size_t) o.segments_from && ( i == (size_t) o.segments_from || g.chance( 0.3 ) ) ) {
      struct { unsigned enabled; u8 * map; unsigned rows, cols; int dq[ 8 ], dlf[ 8 ], skip[ 8 ], ref[ 8 ]; unsigned st[ 4 ]; } roi; memset( &roi, 0, sizeof roi );
      // VP8 layout (libvpx 1.13 and later): enabled, map, rows, cols, delta_q[8], delta_lf[8], skip[8], ref_frame[8], static_threshold[4]
      map.resize( mbw * mbh ); for ( auto & x : map ) x = g.below( 4 );
      roi.enabled = 1; roi.map = map.data(); roi.rows = mbh; roi.cols = mbw;
      for ( int k = 0; k < 4; k++ ) { roi.dq[ k ] = (int) g.below( 21 ) - 10; roi.dlf[ k ] = (int) g.below( 21 ) - 10; }
      int e = ctl( &c, 8, &roi );
      static bool told = false; if ( e && !told ) { told = true; W.counters[ "libvpx_no_segments" ] = 1; }
    }
    const Picture & p = ps[ i ];
    Bytes raw; raw.insert( raw.end(), p.y.begin(), p.y.end() ); raw.insert( raw.end(), p.u.begin(), p.u.end() ); raw.insert( raw.end(), p.v.begin(), p.v.end() );
    void * im = wrap( nullptr, 0x102, p.w, p.h, 1, raw.data() );
    long fl = 0;
    if ( o.flags_seed && i ) {
      if ( g.chance( 0.3 ) ) fl |= 1 << 16; if ( g.chance( 0.3 ) ) fl |= 1 << 17; if ( g.chance( 0.3 ) ) fl |= 1 << 21;
      if ( g.chance( 0.25 ) ) fl |= 1 << 18; if ( g.chance( 0.4 ) ) fl |= 1 << 22; if ( g.chance( 0.4 ) ) fl |= 1 << 23; if ( g.chance( 0.25 ) ) fl |= 1 << 20;
      if ( g.chance( 0.3 ) && !( fl & ( 1 << 22 ) ) ) fl |= 1 << 19; if ( g.chance( 0.3 ) && !( fl & ( 1 << 23 ) ) ) fl |= 1 << 24;
      if ( ( fl & ( 1 << 16 ) ) && ( fl & ( 1 << 17 ) ) && ( fl & ( 1 << 21 ) ) ) fl &= ~( 1 << 16 );
    }
    if ( i == 0 || ( o.kf_every && i % o.kf_every == 0 ) ) fl = 1;
    if ( enc( &c, im, i, 1, fl, 0 ) ) { fprintf( stderr, "sim: libvpx cannot encode\n" ); _exit( 70 ); }
    drain();
    imgfree( im );
  }
  while ( true ) { size_t n = out.size(); if ( enc( &c, nullptr, 0, 0, 0, 0 ) ) break; drain(); if ( out.size() == n ) break; }
  destroy( &c );
  return out;
}

// ---------- crafted frames ----------
struct BoolEnc {
  Bytes out; u32 range = 255, bottom = 0; int bit_count = 24;
  void add_one() { size_t i = out.size(); while ( i > 0 && out[ --i ] == 255 ) out[ i ] = 0; if ( out.size() ) out[ i ]++; }
  void put( bool v, int prob = 128 )
  {
    u32 split = 1 + ( ( ( range - 1 ) * prob ) >> 8 );
    if ( v ) { bottom += split; if ( bottom < split ) add_one(); range -= split; } else range = split;
    while ( range < 128 ) {
      range <<= 1;
      if ( bottom & ( 1u << 31 ) ) add_one();
      bottom <<= 1;
      if ( !--bit_count ) { out.push_back( bottom >> 24 ); bottom &= ( 1 << 24 ) - 1; bit_count = 8; }
    }
  }
  void lit( u32 v, int n ) { while ( n-- ) put( ( v >> n ) & 1 ); }
  Bytes finish() { for ( int i = 0; i < 32; i++ ) put( 0 ); return out; }
};
Bytes CtlFrame::make() const
{
  BoolEnc e;
  auto sgn = [ & ]( int v, int n ) { e.put( v != 0 ); if ( v ) { e.lit( v < 0 ? -v : v, n ); e.put( v < 0 ); } };
  e.put( seg );
  if ( seg ) {
    e.put( !map.empty() ); e.put( seg_data );
    if ( seg_data ) { e.put( seg_abs ); for ( int v : seg_q ) sgn( v, 7 ); for ( int v : seg_lf ) sgn( v, 6 ); }
    if ( !map.empty() ) for ( int i = 0; i < 3; i++ ) { e.put( 1 ); e.lit( 128, 8 ); }
  }
  e.put( 0 ); e.lit( 0, 6 ); e.lit( 0, 3 );
  e.put( lf );
  if ( lf ) { e.put( lf_upd ); if ( lf_upd ) { for ( int v : lf_ref ) { e.put( 1 ); e.lit( v < 0 ? -v : v, 6 ); e.put( v < 0 ); } for ( int v : lf_mode ) { e.put( 1 ); e.lit( v < 0 ? -v : v, 6 ); e.put( v < 0 ); } } }
  e.lit( 0, 2 );
  e.lit( 20, 7 ); for ( int i = 0; i < 5; i++ ) e.put( 0 );
  e.put( 0 ); e.put( 0 ); e.lit( copy_g, 2 ); e.lit( copy_a, 2 ); e.put( 0 ); e.put( 0 ); // no sign bias
  e.put( keep ); e.put( 0 ); // last not refreshed
  static const u8 cu[ 4 ][ 8 ][ 3 ][ 11 ] =
#include "vp8_coef_update.inc"
  int n = 0;
  for ( auto & a : cu ) for ( auto & b : a ) for ( auto & c : b ) for ( u8 p : c ) { auto f = coef.find( n++ ); e.put( f != coef.end(), p ); if ( f != coef.end() ) e.lit( f->second, 8 ); }
  e.put( 1 ); e.lit( 1, 8 ); // skip flag coded, nearly every macroblock skipped
  e.lit( 1, 8 ); e.lit( ref ? 1 : 255, 8 ); e.lit( ref == 2 ? 1 : 255, 8 );
  e.put( !ymode.empty() ); for ( int v : ymode ) e.lit( v, 8 );
  e.put( !uvmode.empty() ); for ( int v : uvmode ) e.lit( v, 8 );
  static const u8 mu[ 2 ][ 19 ] = { { 237, 246, 253, 253, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 250, 250, 252, 254, 254 }, { 231, 243, 245, 253, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 251, 251, 254, 254, 254 } };
  n = 0;
  for ( auto & a : mu ) for ( u8 p : a ) { auto f = mv.find( n++ ); e.put( f != mv.end(), p ); if ( f != mv.end() ) e.lit( f->second, 7 ); }
  static const int ctx0[ 6 ] = { 7, 14, 135, 60, 159, 234 };
  int mw = ( w + 15 ) / 16, mh = ( h + 15 ) / 16;
  for ( int y = 0; y < mh; y++ ) for ( int x = 0; x < mw; x++ ) {
    if ( seg && !map.empty() ) { int s = map[ y * mw + x ]; e.put( s >> 1, 128 ); e.put( s & 1, 128 ); }
    e.put( 1, 1 ); // skipped
    e.put( 1, 1 ); // inter
    if ( !ref ) e.put( 0, 255 ); else { e.put( 1, 1 ); e.put( ref == 2, ref == 2 ? 1 : 255 ); }
    int c = ( y ? 2 : 0 ) + ( x ? 2 : 0 ) + ( x && y ? 1 : 0 );
    e.put( 0, ctx0[ c ] ); // zero motion
  }
  Bytes p1 = e.finish();
  Bytes f; u32 tag = 1 | ( 1 << 4 ) | ( (u32) p1.size() << 5 );
  f.push_back( tag ); f.push_back( tag >> 8 ); f.push_back( tag >> 16 );
  f.insert( f.end(), p1.begin(), p1.end() );
  f.insert( f.end(), 4, 0 );
  return f;
}
Bytes vp8_noop_frame( int w, int h, bool seg, bool lf ) { CtlFrame c; c.w = w; c.h = h; c.seg = seg; c.lf = lf; return c.make(); }

// A frame with a random header and random contents: valid, though no encoder would write it.
Bytes RandFrames::make( bool key )
{
  BoolEnc e;
  static const u8 cu[ 4 ][ 8 ][ 3 ][ 11 ] =
#include "vp8_coef_update.inc"
  static const u8 mu[ 2 ][ 19 ] = { { 237, 246, 253, 253, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 250, 250, 252, 254, 254 }, { 231, 243, 245, 253, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 251, 251, 254, 254, 254 } };
  int mbs = ( ( w + 15 ) / 16 ) * ( ( h + 15 ) / 16 );
  auto delta = [ & ]( int n ) { e.lit( g.below( 1 << n ), n ); e.put( g.below( 2 ) ); };
  auto maybe = [ & ]( double p, int n ) { bool f = g.chance( p ); e.put( f ); if ( f ) delta( n ); };
  if ( key ) { e.put( color_space ); e.put( clamping_type ); tame = g.chance( 0.2 ) ? 0 : 1 + g.below( 2 ); seg_on = lf_on = false; }
  bool seg = key ? g.chance( 0.5 ) : seg_on ? !g.chance( 0.2 ) : g.chance( 0.2 );
  if ( no_segments ) seg = false;
  e.put( seg );
  if ( seg ) {
    // what is not said stays as it was, also across frames without segments
    bool first = !seg_on && g.chance( 0.5 ), map = first || g.chance( 0.4 ), data = first || g.chance( 0.4 );
    e.put( map ); e.put( data );
    if ( data ) { bool a = g.below( 2 ); e.put( a ); for ( int i = 0; i < 4; i++ ) { bool f = g.chance( 0.7 ); e.put( f ); if ( f ) { bool neg = !( a && !g.chance( 0.1 ) ) && g.below( 2 ); e.lit( g.below( neg || tame == 2 ? 128 : tame ? 24 : 4 ), 7 ); e.put( neg ); } } for ( int i = 0; i < 4; i++ ) { bool f = g.chance( 0.7 ); e.put( f ); if ( f ) { e.lit( g.below( 64 ), 6 ); e.put( a && !g.chance( 0.1 ) ? 0 : g.below( 2 ) ); } } }
    if ( map ) for ( int i = 0; i < 3; i++ ) { bool f = g.chance( 0.7 ); e.put( f ); if ( f ) e.lit( g.below( 256 ), 8 ); }
  }
  seg_on = seg;
  e.put( filter_type ); e.lit( g.chance( 0.15 ) ? 0 : g.below( 64 ), 6 ); e.lit( g.chance( 0.5 ) ? 0 : g.below( 8 ), 3 );
  bool lf = key ? g.chance( 0.5 ) : lf_on ? !g.chance( 0.1 ) : g.chance( 0.2 );
  e.put( lf );
  if ( lf ) {
    bool upd = g.chance( lf_on ? 0.3 : 0.6 );
    e.put( upd );
    if ( upd ) for ( int i = 0; i < 8; i++ ) maybe( 0.5, 6 );
  }
  lf_on = lf;
  int lp = g.chance( 0.6 ) ? 0 : g.below( 4 ), np = 1 << lp; e.lit( lp, 2 );
  e.lit( tame == 2 ? g.below( 128 ) : tame ? g.below( 44 ) : g.below( 6 ), 7 );
  for ( int i = 0; i < 5; i++ ) maybe( tame ? 0.3 : 0.0, 4 );
  bool entropy = !among && g.chance( 0.7 ); // the frames that follow were written for the tables of their own stream
  if ( key ) e.put( entropy );
  else {
    bool rg = g.chance( 0.2 ), ra = g.chance( 0.2 );
    e.put( rg ); e.put( ra );
    if ( !rg ) e.lit( g.chance( 0.6 ) ? 0 : g.below( 3 ), 2 );
    if ( !ra ) e.lit( g.chance( 0.6 ) ? 0 : g.below( 3 ), 2 );
    e.put( g.below( 2 ) ); e.put( g.below( 2 ) ); // sign biases
    e.put( entropy ); e.put( g.chance( 0.7 ) );
  }
  if ( key ) saved = false;
  bool all = among || !saved; if ( entropy ) saved = true;
  double pu = g.chance( 0.5 ) ? 0.02 : 0.3 * g.unit();
  for ( auto & a : cu ) for ( auto & b : a ) for ( auto & c : b ) for ( int n = 0; n < 11; n++ ) {
    bool large = n == 6 || n == 8 || n == 10 || ( n == 3 && tame == 2 ), ones = n == 2 && tame == 2; // large coefficients overflow the arithmetic; keep them rare
    // no block may consist of zeros that are all spelt out: the standard and its reference differ on those
    bool zero = n == 1, f = large ? tame && all : ( zero || ones ) && all ? true : g.chance( pu );
    e.put( f, c[ n ] ); if ( f ) e.lit( large ? 255 : ones ? 200 + g.below( 56 ) : 1 + g.below( zero ? 64 : 255 ), 8 );
  }
  bool skip = g.chance( 0.8 ); e.put( skip ); if ( skip ) e.lit( g.below( 256 ), 8 );
  if ( !key ) {
    e.lit( g.chance( 0.6 ) ? g.below( 100 ) : g.below( 256 ), 8 ); e.lit( g.below( 256 ), 8 ); e.lit( g.below( 256 ), 8 );
    bool f = g.chance( 0.2 ); e.put( f ); if ( f ) for ( int i = 0; i < 4; i++ ) e.lit( 1 + g.below( 255 ), 8 );
    f = g.chance( 0.2 ); e.put( f ); if ( f ) for ( int i = 0; i < 3; i++ ) e.lit( 1 + g.below( 255 ), 8 );
    double pm = g.chance( 0.5 ) ? 0.05 : 0.5;
    for ( auto & a : mu ) for ( u8 p : a ) { f = g.chance( pm ); e.put( f, p ); if ( f ) e.lit( g.below( 128 ), 7 ); }
  }
  for ( int i = 0; i < mbs * 60 + 40; i++ ) e.lit( g.below( 256 ), 8 ); // modes and motion vectors
  Bytes p1 = e.finish(), f;
  bool show = always_shown || g.chance( 0.85 );
  u32 tag = ( key ? 0 : 1 ) | ( show ? 1 << 4 : 0 ) | ( (u32) p1.size() << 5 );
  f.push_back( tag ); f.push_back( tag >> 8 ); f.push_back( tag >> 16 );
  if ( key ) for ( int b : { 0x9d, 0x01, 0x2a, w & 255, w >> 8 | ( scaling & 3 ) << 6, h & 255, h >> 8 | ( scaling >> 2 ) << 6 } ) f.push_back( b );
  f.insert( f.end(), p1.begin(), p1.end() );
  std::vector<Bytes> parts( np );
  int rows = ( h + 15 ) / 16, cols = ( w + 15 ) / 16;
  for ( int i = 0; i < np; i++ ) { int mine = ( rows + np - 1 - i ) / np * cols; size_t len = mine * 420 + 40; for ( size_t k = 0; k < len; k++ ) parts[ i ].push_back( k ? g.next() : g.below( 255 ) /* 255 is no encoder's */ ); }
  for ( int i = 0; i + 1 < np; i++ ) for ( int k = 0; k < 3; k++ ) f.push_back( parts[ i ].size() >> ( 8 * k ) );
  for ( auto & b : parts ) f.insert( f.end(), b.begin(), b.end() );
  return f;
}

// ---------- scene ----------
Picture Scene::make( u64 idx ) const
{
  u64 i = ( idx + shift ) / hold;
  u64 sc = cut_every ? i / cut_every : 0;
  u64 k = h2( seed, sc );
  Picture p; p.w = w; p.h = h;
  p.y.resize( (size_t) w * h ); p.u.resize( (size_t) ( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 ) ); p.v = p.u;
  int dx = ( k & 3 ) * i / 2, dy = ( ( k >> 2 ) & 3 ) * i / 3;
  double fx = 0.02 + ( ( k >> 8 ) & 15 ) * 0.01, fy = 0.02 + ( ( k >> 12 ) & 15 ) * 0.01;
  u64 z = h2( k, i ) | 1;
  std::vector<int> sx( w ), sy( h );
  for ( int x = 0; x < w; x++ ) sx[ x ] = (int) ( 50 * sin( ( x + dx ) * fx * 6.28 ) );
  for ( int y = 0; y < h; y++ ) sy[ y ] = (int) ( 50 * cos( ( y + dy ) * fy * 6.28 ) );
  int bx = (int) ( ( i * 5 + ( k >> 20 ) % w ) % w ), by = (int) ( ( i * 3 + ( k >> 28 ) % h ) % h );
  for ( int y = 0; y < h; y++ ) for ( int x = 0; x < w; x++ ) {
    int v = 128 + ( flat ? 0 : sx[ x ] + sy[ y ] );
    if ( ( x - bx ) * ( x - bx ) + ( y - by ) * ( y - by ) < 100 ) v += 60;
    if ( noise ) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; v += (int) ( z % ( 2 * noise + 1 ) ) - noise; }
    p.y[ (size_t) y * w + x ] = v < 0 ? 0 : v > 255 ? 255 : v;
  }
  int cw = ( w + 1 ) / 2, ch = ( h + 1 ) / 2;
  for ( int y = 0; y < ch; y++ ) for ( int x = 0; x < cw; x++ ) {
    int n = 0; if ( noise > 30 ) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; n = (int) ( z % 21 ) - 10; }
    p.u[ (size_t) y * cw + x ] = (u8) ( 128 + ( ( x + i ) * 3 + ( k >> 5 ) ) % 64 - 32 + n );
    p.v[ (size_t) y * cw + x ] = (u8) ( 128 + ( ( y + i ) * 5 + ( k >> 9 ) ) % 64 - 32 - n );
  }
  if ( barcode && w >= 64 && h >= 16 ) {
    unsigned n = idx & 4095, bits = n | ( ( h2( 99, n ) & 15 ) << 12 );
    for ( int b = 0; b < 16; b++ )
      for ( int y = 0; y < 8; y++ ) for ( int x = 0; x < 8; x++ )
        p.y[ (size_t) ( ( b / 8 ) * 8 + y ) * w + ( b % 8 ) * 8 + x ] = ( bits >> b ) & 1 ? 235 : 16;
    for ( int y = 0; y < 8; y++ ) for ( int x = 0; x < 32; x++ ) p.u[ (size_t) y * cw + x ] = p.v[ (size_t) y * cw + x ] = 128;
  }
  return p;
}
int barcode_read( const Picture & p )
{
  if ( p.w < 64 || p.h < 16 ) return -1;
  unsigned bits = 0;
  for ( int b = 0; b < 16; b++ ) {
    int s = 0;
    for ( int y = 2; y < 6; y++ ) for ( int x = 2; x < 6; x++ ) s += p.y[ (size_t) ( ( b / 8 ) * 8 + y ) * p.w + ( b % 8 ) * 8 + x ];
    if ( s / 16 > 126 ) bits |= 1u << b;
  }
  unsigned n = bits & 4095;
  return ( bits >> 12 ) == ( h2( 99, n ) & 15 ) ? (int) n : -1;
}

// ---------- VP8 frame header ----------
struct BoolDec {
  const u8 * p, * e; u32 value = 0, range = 255; int bits = 0;
  BoolDec( const u8 * a, const u8 * b ) : p( a ), e( b ) { value = ( next() << 8 ); value |= next(); }
  u32 next() { return p < e ? *p++ : 0; }
  bool get( int prob = 128 )
  {
    u32 split = 1 + ( ( ( range - 1 ) * prob ) >> 8 ), S = split << 8; bool r;
    if ( value >= S ) { r = true; range -= split; value -= S; } else { r = false; range = split; }
    while ( range < 128 ) { value <<= 1; range <<= 1; if ( ++bits == 8 ) { bits = 0; value |= next(); } }
    return r;
  }
  u32 lit( int n ) { u32 v = 0; while ( n-- ) v = v * 2 + get(); return v; }
};
// what a report on a frame's header should say, as words separated by single spaces, one item per line
std::string vp8_report( const Bytes & b, bool probs )
{
  static const u8 cu[ 4 ][ 8 ][ 3 ][ 11 ] =
#include "vp8_coef_update.inc"
  static const u8 mu[ 2 ][ 19 ] = { { 237, 246, 253, 253, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 250, 250, 252, 254, 254 }, { 231, 243, 245, 253, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 251, 251, 254, 254, 254 } };
  bool key = !( b[ 0 ] & 1 ), show = b[ 0 ] >> 4 & 1; std::string o, h, q, t;
  BoolDec d( b.data() + ( key ? 10 : 3 ), b.data() + b.size() );
  auto kv = [ & ]( const char * k, int v ) { h += std::string( k ) + ": " + std::to_string( v ) + "\n"; };
  auto sig = [ & ]( int n ) { int v = d.lit( n ); return d.get() ? -v : v; };
  if ( key ) { kv( "color_space", d.get() ); kv( "clamping_type", d.get() ); }
  bool seg = d.get();
  if ( seg ) {
    bool um = d.get(), ud = d.get();
    if ( ud ) { d.get(); for ( int i = 0; i < 4; i++ ) if ( d.get() ) d.lit( 8 ); for ( int i = 0; i < 4; i++ ) if ( d.get() ) d.lit( 7 ); }
    if ( um ) for ( int i = 0; i < 3; i++ ) if ( d.get() ) d.lit( 8 );
  }
  int type = d.get(), level = d.lit( 6 ), sharp = d.lit( 3 ); bool lf = d.get(), upd = lf && d.get(); std::string up[ 2 ];
  if ( upd ) for ( int i = 0; i < 8; i++ ) up[ i / 4 ] += d.get() ? " " + std::to_string( sig( 6 ) ) : " X";
  d.lit( 2 );
  q = "[Quantizer]\ny_ac_qi = " + std::to_string( d.lit( 7 ) ) + "\n";
  for ( const char * n : { "y_dc", "y2_dc", "y2_ac", "uv_dc", "uv_ac" } ) if ( d.get() ) q += std::string( n ) + " = " + std::to_string( sig( 4 ) ) + "\n";
  bool rg = false, ra = false, rl = false, entropy;
  if ( key ) entropy = d.get();
  else { rg = d.get(); ra = d.get(); if ( !rg ) d.lit( 2 ); if ( !ra ) d.lit( 2 ); d.lit( 2 ); entropy = d.get(); rl = d.get(); }
  kv( "refresh_entropy_probs", entropy ); kv( "update_segmentation", seg ); kv( "filter_type", type ); kv( "mode_lf_adjustments", lf );
  if ( lf ) { kv( "lf_delta_update", upd ); if ( upd ) h += "ref_update:" + up[ 0 ] + "\nmode_update:" + up[ 1 ] + "\n"; }
  for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 8; j++ ) for ( int k = 0; k < 3; k++ ) {
    t += "[ " + std::to_string( i ) + ", " + std::to_string( j ) + ", " + std::to_string( k ) + " ] = {";
    for ( int n = 0; n < 11; n++ ) t += d.get( cu[ i ][ j ][ k ][ n ] ) ? " " + std::to_string( d.lit( 8 ) ) : " -";
    t += " }\n";
  }
  kv( "loop_filter_level", level ); kv( "sharpness_level", sharp );
  bool skip = d.get(); kv( "mb_no_skip_coeff", skip ); if ( skip ) kv( "prob_skip_false", d.lit( 8 ) );
  if ( !key ) {
    kv( "refresh_last", rl ); kv( "refresh_golden_frame", rg ); kv( "refresh_alternate_frame", ra );
    kv( "prob_inter", d.lit( 8 ) ); kv( "prob_last", d.lit( 8 ) ); kv( "prob_golden", d.lit( 8 ) );
    for ( int m = 0; m < 2; m++ ) { bool f = d.get(); kv( m ? "chroma_prob_update" : "16x16_prob_update", f ); if ( f ) { h += m ? "chroma_prob:" : "16x16_prob:"; for ( int i = 0; i < 4 - m; i++ ) h += " " + std::to_string( d.lit( 8 ) ); h += "\n"; } }
    h += "mv_prob_update: "; for ( int i = 0; i < 2; i++ ) for ( int j = 0; j < 19; j++ ) { if ( d.get( mu[ i ][ j ] ) ) { int x = d.lit( 7 ); h += std::to_string( x ? x * 2 : 1 ); } else h += "-"; if ( i == 0 || j != 18 ) h += "|"; }
    h += "\n";
  }
  return ( probs ? "[Probability Tables]\n" + t : "" ) + ( show ? "" : "(hidden frame)\n" ) + ( key ? "[Keyframe Header]\n" : "[Interframe Header]\n" ) + h + q;
}
#include "vp8_parse.inc"
struct MbReader::In : MbText {}; 
MbReader::MbReader() : in( new In ) {} MbReader::~MbReader() { delete in; }
std::string MbReader::next( const Bytes & b, bool coefs ) { return in->next( b, coefs ); }
size_t MbReader::zero_runs() { return in->zero_runs; }
VpFrameHdr vp8_header( const Bytes & b )
{
  VpFrameHdr h;
  if ( b.size() < 3 ) return h;
  u32 tag = b[ 0 ] | b[ 1 ] << 8 | b[ 2 ] << 16;
  h.key = !( tag & 1 ); h.show = ( tag >> 4 ) & 1; h.part1 = tag >> 5;
  size_t off = 3;
  if ( h.key ) { if ( b.size() < 10 || b[ 3 ] != 0x9d || b[ 4 ] != 1 || b[ 5 ] != 0x2a ) return h; h.w = ( b[ 6 ] | b[ 7 ] << 8 ) & 0x3fff; h.h = ( b[ 8 ] | b[ 9 ] << 8 ) & 0x3fff; off = 10; }
  BoolDec d( b.data() + off, b.data() + b.size() );
  if ( h.key ) d.lit( 2 );
  if ( ( h.seg = d.get() ) ) {
    bool um = d.get(), ud = d.get();
    if ( ud ) { d.get(); for ( int i = 0; i < 4; i++ ) if ( d.get() ) d.lit( 8 ); for ( int i = 0; i < 4; i++ ) if ( d.get() ) d.lit( 7 ); }
    if ( um ) for ( int i = 0; i < 3; i++ ) if ( d.get() ) d.lit( 8 );
  }
  d.lit( 1 ); d.lit( 6 ); d.lit( 3 );
  if ( ( h.lf = d.get() ) ) { if ( d.get() ) for ( int i = 0; i < 8; i++ ) if ( d.get() ) d.lit( 7 ); }
  d.lit( 2 );
  h.q = d.lit( 7 );
  for ( int i = 0; i < 5; i++ ) if ( d.get() ) d.lit( 5 );
  if ( h.key ) { h.refresh_last = h.refresh_golden = h.refresh_alt = true; }
  else { h.refresh_golden = d.get(); h.refresh_alt = d.get(); if ( !h.refresh_golden ) d.lit( 2 ); if ( !h.refresh_alt ) d.lit( 2 ); d.lit( 2 ); d.get(); h.refresh_last = d.get(); }
  h.ok = true;
  return h;
}

// ---------- files ----------
static u32 le32( const u8 * p ) { return p[ 0 ] | p[ 1 ] << 8 | p[ 2 ] << 16 | (u32) p[ 3 ] << 24; }
Ivf ivf_parse( const Bytes & b )
{
  Ivf v;
  if ( b.size() < 32 || memcmp( b.data(), "DKIF", 4 ) || memcmp( b.data() + 8, "VP80", 4 ) ) return v;
  if ( ( b[ 6 ] | b[ 7 ] << 8 ) != 32 ) return v;
  v.header.assign( b.begin(), b.begin() + 32 );
  v.w = b[ 12 ] | b[ 13 ] << 8; v.h = b[ 14 ] | b[ 15 ] << 8; v.claimed = le32( &b[ 24 ] ); v.reserved = le32( &b[ 28 ] );
  v.ok = true;
  size_t p = 32;
  for ( u32 i = 0; i < v.claimed; i++ ) {
    if ( p + 12 > b.size() ) { v.truncated = true; break; }
    u32 n = le32( &b[ p ] );
    if ( p + 12 + n > b.size() ) { v.truncated = true; break; }
    v.frames.emplace_back( b.begin() + p + 12, b.begin() + p + 12 + n );
    p += 12 + n;
  }
  return v;
}
Bytes ivf_make( int w, int h, const std::vector<Bytes> & frames, u32 reserved )
{
  Bytes b; auto p16 = [ & ]( unsigned x ) { b.push_back( x ); b.push_back( x >> 8 ); }; auto p32 = [ & ]( u32 x ) { p16( x & 0xffff ); p16( x >> 16 ); };
  for ( char c : std::string( "DKIF" ) ) b.push_back( c );
  p16( 0 ); p16( 32 ); for ( char c : std::string( "VP80" ) ) b.push_back( c );
  p16( w ); p16( h ); p32( 24 ); p32( 1 ); p32( frames.size() ); p32( reserved );
  u64 n = 0;
  for ( auto & f : frames ) { p32( f.size() ); p32( n++ ); p32( 0 ); b.insert( b.end(), f.begin(), f.end() ); }
  return b;
}
Bytes y4m_make( const std::vector<Picture> & ps, int fps )
{
  Bytes b; auto put = [ & ]( const std::string & s ) { b.insert( b.end(), s.begin(), s.end() ); };
  if ( ps.empty() ) return b;
  put( "YUV4MPEG2 W" + std::to_string( ps[ 0 ].w ) + " H" + std::to_string( ps[ 0 ].h ) + " F" + std::to_string( fps ) + ":1 Ip A0:0 C420jpeg\n" );
  for ( auto & p : ps ) { put( "FRAME\n" ); b.insert( b.end(), p.y.begin(), p.y.end() ); b.insert( b.end(), p.u.begin(), p.u.end() ); b.insert( b.end(), p.v.begin(), p.v.end() ); }
  return b;
}
Y4m y4m_parse( const Bytes & b )
{
  Y4m y;
  size_t e = 0; while ( e < b.size() && b[ e ] != '\n' ) e++;
  if ( e == b.size() ) return y;
  y.header.assign( b.begin(), b.begin() + e );
  if ( y.header.compare( 0, 9, "YUV4MPEG2" ) ) return y;
  size_t pw = y.header.find( " W" ), ph = y.header.find( " H" );
  if ( pw == std::string::npos || ph == std::string::npos ) return y;
  y.w = atoi( y.header.c_str() + pw + 2 ); y.h = atoi( y.header.c_str() + ph + 2 );
  if ( y.w <= 0 || y.h <= 0 ) return y;
  size_t p = e + 1, yl = (size_t) y.w * y.h, cl = (size_t) ( ( y.w + 1 ) / 2 ) * ( ( y.h + 1 ) / 2 );
  y.ok = true;
  while ( p < b.size() ) {
    size_t q = p; while ( q < b.size() && b[ q ] != '\n' ) q++;
    if ( q == b.size() || q - p < 5 || memcmp( &b[ p ], "FRAME", 5 ) || q + 1 + yl + 2 * cl > b.size() ) { y.trailing = b.size() - p; break; }
    Picture k; k.w = y.w; k.h = y.h; const u8 * s = &b[ q + 1 ];
    k.y.assign( s, s + yl ); k.u.assign( s + yl, s + yl + cl ); k.v.assign( s + yl + cl, s + yl + 2 * cl );
    y.pics.push_back( std::move( k ) );
    p = q + 1 + yl + 2 * cl;
  }
  return y;
}
