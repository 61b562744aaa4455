// ---------- an independent reading of a frame's macroblocks ----------
#include "vp8_defaults.inc"
struct MbText { // everything that a report on macroblocks depends on from earlier frames
  u8 coef[ 1056 ], mv[ 38 ], ymode[ 4 ], uvmode[ 3 ]; int w = 0, h = 0; size_t zero_runs = 0;
  void reset() { memcpy( coef, vp8_coef_default, 1056 ); memcpy( mv, vp8_mv_default, 38 ); static const u8 y[] = { 112, 86, 140, 37 }, u[] = { 162, 101, 204 }; memcpy( ymode, y, 4 ); memcpy( uvmode, u, 3 ); }
  std::string next( const Bytes & b, bool coefs );
};
static int tree( BoolDec & d, const signed char * t, const u8 * p ) { int i = 0; while ( ( i = t[ i + d.get( p[ i >> 1 ] ) ] ) > 0 ) ; return -i; }
std::string MbText::next( const Bytes & b, bool coefs )
{
  static const u8 cu[ 4 ][ 8 ][ 3 ][ 11 ] =
#include "vp8_coef_update.inc"
  static const u8 mu[ 38 ] = { 237, 246, 253, 253, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 250, 250, 252, 254, 254, 231, 243, 245, 253, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 251, 251, 254, 254, 254 };
  static const char * const mode[] = { "DC_PRED", "V_PRED", "H_PRED", "TM_PRED", "B_PRED", "NEARESTMV", "NEARMV", "ZEROMV", "NEWMV", "SPLITMV" };
  static const char * const bmode[] = { "B_DC_PRED", "B_TM_PRED", "B_VE_PRED", "B_HE_PRED", "B_LD_PRED", "B_RD_PRED", "B_VR_PRED", "B_VL_PRED", "B_HD_PRED", "B_HU_PRED", "LEFT4X4", "ABOVE4X4", "ZERO4X4", "NEW4X4" };
  static const char * const refs[] = { "", "LAST_FRAME", "GOLDEN_FRAME", "ALTREF_FRAME" };
  bool key = !( b[ 0 ] & 1 ); size_t head = key ? 10 : 3, part1 = ( b[ 0 ] | b[ 1 ] << 8 | b[ 2 ] << 16 ) >> 5;
  const u8 * end = b.data() + b.size(), * p1 = std::min( b.data() + head, end ), * p2 = std::min<const u8 *>( p1 + std::min<size_t>( part1, end - p1 ), end );
  BoolDec d( p1, p2 ); if ( key ) { reset(); w = ( b[ 6 ] | b[ 7 ] << 8 ) & 0x3fff; h = ( b[ 8 ] | b[ 9 ] << 8 ) & 0x3fff; }
  MbText kept = *this;
  if ( key ) d.lit( 2 );
  bool um = false; u8 sp[ 3 ] = { 255, 255, 255 };
  if ( d.get() ) {
    um = d.get(); bool ud = d.get();
    if ( ud ) { d.get(); for ( int i = 0; i < 4; i++ ) if ( d.get() ) d.lit( 8 ); for ( int i = 0; i < 4; i++ ) if ( d.get() ) d.lit( 7 ); }
    if ( um ) for ( u8 & x : sp ) if ( d.get() ) x = d.lit( 8 );
  }
  d.lit( 10 ); if ( d.get() && d.get() ) for ( int i = 0; i < 8; i++ ) if ( d.get() ) d.lit( 7 );
  int parts = 1 << d.lit( 2 ); d.lit( 7 ); for ( int i = 0; i < 5; i++ ) if ( d.get() ) d.lit( 5 );
  bool keep, flip[ 4 ] = {};
  if ( key ) keep = d.get();
  else { bool g = d.get(), a = d.get(); if ( !g ) d.lit( 2 ); if ( !a ) d.lit( 2 ); flip[ 2 ] = d.get(); flip[ 3 ] = d.get(); keep = d.get(); d.get(); }
  for ( int i = 0; i < 1056; i++ ) if ( d.get( ( (const u8 *) cu )[ i ] ) ) coef[ i ] = d.lit( 8 );
  bool skips = d.get(); int pskip = skips ? d.lit( 8 ) : 0, pinter = 0, plast = 0, pgold = 0;
  if ( !key ) {
    pinter = d.lit( 8 ); plast = d.lit( 8 ); pgold = d.lit( 8 );
    if ( d.get() ) for ( u8 & x : ymode ) x = d.lit( 8 );
    if ( d.get() ) for ( u8 & x : uvmode ) x = d.lit( 8 );
    for ( int i = 0; i < 38; i++ ) if ( d.get( mu[ i ] ) ) { int x = d.lit( 7 ); mv[ i ] = x ? 2 * x : 1; }
  }
  // modes
  typedef std::pair<int, int> V; // x, y
  struct Mb { int ref = 0, mode = 0, uv = 0; bool skip = false; u8 sub[ 16 ] = {}; V v[ 16 ]; };
  int mw = ( w + 15 ) / 16, mh = ( h + 15 ) / 16; std::vector<Mb> m( mw * mh ); Mb none; 
  static const signed char kfy[] = { -4, 2, 4, 6, 0, -1, -2, -3 }, yt[] = { 0, 2, 4, 6, -1, -2, -3, -4 }, uvt[] = { 0, 2, -1, 4, -2, -3 }, bt[] = { 0, 2, -1, 4, -2, 6, 8, 12, -3, 10, -5, -6, -4, 14, -7, 16, -8, -9 };
  static const u8 kfyp[] = { 145, 156, 163, 128 }, kfuvp[] = { 142, 114, 183 }, bp[] = { 120, 90, 79, 133, 87, 85, 80, 111, 151 };
  static const u8 cnt[ 6 ][ 4 ] = { { 7, 1, 1, 143 }, { 14, 18, 14, 107 }, { 135, 64, 57, 68 }, { 60, 56, 128, 65 }, { 159, 134, 128, 34 }, { 234, 188, 128, 28 } };
  auto component = [ & ]( const u8 * p ) {
    int x = 0;
    if ( d.get( p[ 0 ] ) ) { for ( int i = 0; i < 3; i++ ) x += d.get( p[ 9 + i ] ) << i; for ( int i = 9; i > 3; i-- ) x += d.get( p[ 9 + i ] ) << i; if ( x <= 15 || d.get( p[ 12 ] ) ) x += 8; }
    else { const u8 * t = p + 2; if ( !d.get( t[ 0 ] ) ) x = !d.get( t[ 1 ] ) ? d.get( t[ 2 ] ) : 2 + d.get( t[ 3 ] ); else x = !d.get( t[ 4 ] ) ? 4 + d.get( t[ 5 ] ) : 6 + d.get( t[ 6 ] ); }
    x *= 2; return x && d.get( p[ 1 ] ) ? -x : x;
  };
  auto newmv = [ & ]( V base ) { int y = component( mv ), x = component( mv + 19 ); return V( int16_t( base.first + x ), int16_t( base.second + y ) ); };
  for ( int y = 0; y < mh; y++ ) for ( int x = 0; x < mw; x++ ) {
    Mb & c = m[ y * mw + x ]; const Mb & above = y ? m[ ( y - 1 ) * mw + x ] : none, & left = x ? m[ y * mw + x - 1 ] : none, & al = x && y ? m[ ( y - 1 ) * mw + x - 1 ] : none;
    if ( um ) { if ( d.get( sp[ 0 ] ) ) d.get( sp[ 2 ] ); else d.get( sp[ 1 ] ); }
    c.skip = skips && d.get( pskip );
    if ( !key && d.get( pinter ) ) c.ref = d.get( plast ) ? 2 + d.get( pgold ) : 1;
    if ( !c.ref ) {
      c.mode = key ? tree( d, kfy, kfyp ) : tree( d, yt, ymode ); static const u8 implied[] = { 0, 2, 3, 1 };
      for ( int i = 0; i < 16; i++ ) c.sub[ i ] = c.mode < 4 ? implied[ c.mode ] : key ? tree( d, bt, vp8_kf_bmode + 90 * ( i < 4 ? above.sub[ i + 12 ] : c.sub[ i - 4 ] ) + 9 * ( i % 4 ? c.sub[ i - 1 ] : left.sub[ i + 3 ] ) ) : tree( d, bt, bp );
      c.uv = tree( d, uvt, key ? kfuvp : uvmode );
    } else {
      V near[ 4 ] = {}; int n[ 4 ] = {}, k = 0, split = 0; const Mb * around[] = { &above, &left, &al };
      for ( int i = 0; i < 3; i++ ) {
        const Mb & o = *around[ i ]; int weight = i < 2 ? 2 : 1; if ( !o.ref ) continue;
        V v = o.v[ 15 ]; if ( o.mode == 9 ) split += weight;
        if ( v == V() ) { n[ 0 ] += weight; continue; }
        if ( flip[ o.ref ] != flip[ c.ref ] ) v = { -v.first, -v.second };
        if ( !k || v != near[ k ] ) near[ ++k ] = v;
        n[ k ] += weight;
      }
      if ( n[ 3 ] && near[ 3 ] == near[ 1 ] ) n[ 1 ] += n[ 3 ];
      if ( n[ 2 ] > n[ 1 ] ) std::swap( n[ 1 ], n[ 2 ] ), std::swap( near[ 1 ], near[ 2 ] );
      if ( n[ 1 ] >= n[ 0 ] ) near[ 0 ] = near[ 1 ];
      auto inside = [ & ]( V v ) { return V( std::max( -( x * 128 ) - 128, std::min( v.first, ( mw - 1 - x ) * 128 + 128 ) ), std::max( -( y * 128 ) - 128, std::min( v.second, ( mh - 1 - y ) * 128 + 128 ) ) ); };
      V best = inside( near[ 0 ] ), one;
      if ( !d.get( cnt[ n[ 0 ] ][ 0 ] ) ) c.mode = 7;
      else if ( !d.get( cnt[ n[ 1 ] ][ 1 ] ) ) { c.mode = 5; one = inside( near[ 1 ] ); }
      else if ( !d.get( cnt[ n[ 2 ] ][ 2 ] ) ) { c.mode = 6; one = inside( near[ 2 ] ); }
      else if ( !d.get( cnt[ split ][ 3 ] ) ) { c.mode = 8; one = newmv( best ); }
      else {
        c.mode = 9; int how = !d.get( 110 ) ? 3 : !d.get( 111 ) ? 2 : d.get( 150 ); bool done[ 16 ] = {};
        auto part = [ & ]( int i ) { return how == 0 ? i / 8 : how == 1 ? i % 4 / 2 : how == 2 ? i / 8 * 2 + i % 4 / 2 : i; };
        for ( int i = 0; i < 16; i++ ) if ( !done[ i ] ) {
          V l = i % 4 ? c.v[ i - 1 ] : left.v[ i + 3 ], a = i > 3 ? c.v[ i - 4 ] : above.v[ i + 12 ], v; static const u8 sub[ 5 ][ 3 ] = { { 147, 136, 18 }, { 106, 145, 1 }, { 179, 121, 1 }, { 223, 1, 34 }, { 208, 1, 1 } };
          const u8 * p = sub[ l == a ? ( a == V() ? 4 : 3 ) : a == V() ? 2 : l == V() ? 1 : 0 ]; int s;
          if ( !d.get( p[ 0 ] ) ) { s = 10; v = l; } else if ( !d.get( p[ 1 ] ) ) { s = 11; v = a; } else if ( !d.get( p[ 2 ] ) ) s = 12; else { s = 13; v = newmv( best ); }
          for ( int j = i; j < 16; j++ ) if ( part( j ) == part( i ) ) { c.v[ j ] = v; c.sub[ j ] = s; done[ j ] = true; }
        }
      }
      if ( c.mode != 9 ) for ( V & v : c.v ) v = one;
    }
  }
  // coefficients
  std::vector<BoolDec> parts_; const u8 * q = std::min<const u8 *>( p2 + 3 * ( parts - 1 ), end );
  for ( int i = 0; i < parts; i++ ) { size_t n = end - q; const u8 * s = p2 + 3 * i; if ( i + 1 < parts && s + 3 <= end ) n = std::min<size_t>( n, s[ 0 ] | s[ 1 ] << 8 | s[ 2 ] << 16 ); parts_.emplace_back( q, q + n ); q += n; }
  struct Line { bool y[ 4 ] = {}, u[ 2 ] = {}, v[ 2 ] = {}, y2 = false; }; std::vector<Line> up( mw ); std::string o;
  for ( int y = 0; y < mh; y++ ) {
    Line l; BoolDec & t = parts_[ y % parts ];
    for ( int x = 0; x < mw; x++ ) {
      Mb & c = m[ y * mw + x ]; Line & a = up[ x ]; bool y2 = c.mode != 4 && c.mode != 9;
      auto block = [ & ]( int type, bool & above, bool & left ) -> std::string {
        static const u8 band[] = { 0, 1, 2, 3, 6, 4, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7 }, zig[] = { 0, 1, 4, 8, 5, 2, 3, 6, 9, 12, 13, 10, 7, 11, 14, 15 };
        if ( c.skip ) { above = left = false; return "ALL ZERO\n"; }
        int ctx = above + left, v[ 16 ] = {}, i = type == 0, first = i; bool zero = false, some = false;
        for ( ; i < 16; i++ ) {
          const u8 * p = coef + 264 * type + 33 * band[ i ] + 11 * ctx;
          if ( !zero && !t.get( p[ 0 ] ) ) break;
          if ( ( zero = !t.get( p[ 1 ] ) ) ) { ctx = 0; continue; }
          int k; auto extra = [ & ]( int base, std::initializer_list<int> ps ) { int e = 0; for ( int b : ps ) e = 2 * e + t.get( b ); return base + e; };
          if ( !t.get( p[ 2 ] ) ) k = 1;
          else if ( !t.get( p[ 3 ] ) ) k = !t.get( p[ 4 ] ) ? 2 : 3 + t.get( p[ 5 ] );
          else if ( !t.get( p[ 6 ] ) ) k = !t.get( p[ 7 ] ) ? extra( 5, { 159 } ) : extra( 7, { 165, 145 } );
          else if ( !t.get( p[ 8 ] ) ) k = !t.get( p[ 9 ] ) ? extra( 11, { 173, 148, 140 } ) : extra( 19, { 176, 155, 140, 135 } );
          else k = !t.get( p[ 10 ] ) ? extra( 35, { 180, 157, 141, 134, 130 } ) : extra( 67, { 254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129 } );
          ctx = k == 1 ? 1 : 2; some = true; v[ zig[ i ] ] = t.get() ? -k : k;
        }
        above = left = i > first; if ( i > first && !some ) zero_runs++; 
        if ( !some ) return "ALL ZERO\n";
        std::string s = "DCT coeffs: { "; for ( int j = 0; j < 16; j++ ) s += std::to_string( v[ j ] ) + ( j < 15 ? ", " : " }\n" ); return s;
      };
      std::string s2, sy[ 16 ], su[ 4 ], sv[ 4 ];
      if ( y2 ) s2 = block( 1, a.y2, l.y2 );
      for ( int i = 0; i < 16; i++ ) sy[ i ] = block( y2 ? 0 : 3, a.y[ i % 4 ], l.y[ i / 4 ] );
      for ( int i = 0; i < 4; i++ ) su[ i ] = block( 2, a.u[ i % 2 ], l.u[ i / 2 ] );
      for ( int i = 0; i < 4; i++ ) sv[ i ] = block( 2, a.v[ i % 2 ], l.v[ i / 2 ] );
      auto at = [ & ]( const char * n, int c_, int r ) { o += std::string( n ) + " Subblock [ " + std::to_string( c_ ) + ", " + std::to_string( r ) + " ]\n"; };
      o += "Macroblock [ " + std::to_string( x ) + ", " + std::to_string( y ) + " ]\n<Y>\nPrediction Mode: " + mode[ c.mode ] + "\n";
      if ( c.ref ) o += "Base Motion Vector: ( " + std::to_string( c.v[ 15 ].first ) + ", " + std::to_string( c.v[ 15 ].second ) + " )\nReference: " + refs[ c.ref ] + "\n";
      for ( int i = 0; i < 16; i++ ) { at( "Y", i % 4, i / 4 ); if ( !y2 ) o += std::string( "Prediction Mode: " ) + bmode[ c.sub[ i ] ] + "\n"; if ( coefs ) o += sy[ i ]; }
      if ( coefs && y2 ) o += "<Y2>\n" + s2;
      for ( int p = 0; p < 2; p++ ) {
        o += p ? "<V>\n" : "<U>\n"; if ( !c.ref ) o += std::string( "Prediction Mode: " ) + mode[ c.uv ] + "\n";
        for ( int i = 0; i < 4; i++ ) { at( p ? "V" : "U", i % 2, i / 2 ); if ( coefs ) o += p ? sv[ i ] : su[ i ]; }
      }
    }
  }
  if ( !keep ) { auto z = zero_runs; *this = kept; zero_runs = z; }
  return o;
}
