// Whole-session scenarios: the real sender and receiver programs over the simulated network,
// with the reference models and checks of properties C01-C11 and C17.
#include "salsify.hh"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdarg>

extern Thread * thread_new( Node *, void * ( * )( void * ), void * );
static uint16_t g_w = 64, g_h = 64;
extern "C" __attribute__( ( visibility( "default" ) ) ) uint16_t sim_camera_width( void ) { return g_w; }
extern "C" __attribute__( ( visibility( "default" ) ) ) uint16_t sim_camera_height( void ) { return g_h; }

static u32 g16( const Bytes & b, size_t o ) { return b[ o ] | b[ o + 1 ] << 8; }
static u32 g32( const Bytes & b, size_t o ) { return g16( b, o ) | g16( b, o + 2 ) << 16; }
DataPkt data_parse( const Bytes & b )
{
  DataPkt p; if ( b.size() < 23 ) return p;
  p.conn = g16( b, 0 ); p.source = g32( b, 2 ); p.target = g32( b, 6 ); p.frame = g32( b, 10 ); p.frag = g16( b, 14 ); p.frags = g16( b, 16 ); p.tsl = g32( b, 18 );
  p.payload.assign( b.begin() + 22, b.end() ); p.ok = true;
  return p;
}
Ack ack_parse( const Bytes & b )
{
  Ack a; if ( b.size() < 20 ) return a;
  a.conn = g16( b, 0 ); a.frame = g32( b, 2 ); a.frag = g16( b, 6 ); a.avg = g32( b, 8 ); a.cur = g32( b, 12 );
  u32 n = g32( b, 16 ); if ( b.size() != 20 + 4ull * n ) return a;
  for ( u32 i = 0; i < n; i++ ) a.list.push_back( g32( b, 20 + 4 * i ) );
  a.ok = true;
  return a;
}
Bytes ack_make( const Ack & a )
{
  Bytes b; auto p16 = [ & ]( u32 x ) { b.push_back( x ); b.push_back( x >> 8 ); }; auto p32 = [ & ]( u32 x ) { p16( x & 0xffff ); p16( x >> 16 ); };
  p16( a.conn ); p32( a.frame ); p16( a.frag ); p32( a.avg ); p32( a.cur ); p32( a.list.size() ); for ( u32 x : a.list ) p32( x );
  return b;
}

// which property a class of violation belongs to
static const std::map<std::string, std::set<std::string>> & classes()
{
  static const std::map<std::string, std::set<std::string>> m = {
    { "picture-wrong", { "C01", "C03", "C04", "C06", "C09" } }, { "picture-missing", { "C01", "C04", "C09" } },
    { "ack-not-target", { "C01", "C04", "C06" } }, { "stream-undecodable", { "C01", "C04", "C05" } },
    { "sender-stopped", { "C02", "C03" } }, { "receiver-stopped", { "C02", "C06" } }, { "frozen", { "C03" } }, { "not-recovered", { "C03" } },
    { "stream-order", { "C04", "C07" } }, { "stream-header", { "C04" } }, { "order-dependent", { "C04" } }, { "late-fragment-effect", { "C04", "C06" } },
    { "source-illegal", { "C05" } }, { "source-not-conservative", { "C05" } },
    { "ack-echo", { "C06" } }, { "ack-missing", { "C06" } }, { "ack-extra", { "C06", "C04" } }, { "ack-destination", { "C06" } }, { "ack-delay", { "C06" } },
    { "ack-list", { "C06" } }, { "ack-list-incomplete", { "C06" } }, { "announced-pause", { "C06" } },
    { "pacing-early", { "C07" } }, { "pacing-late", { "C07" } }, { "fragment-lost", { "C07" } },
    { "over-budget", { "C08" } }, { "skip-illegal", { "C08" } }, { "too-many-skips", { "C08" } }, { "forced-not-smallest", { "C08" } },
    { "memory-growth", { "C10" } },
    { "capture-order", { "C11" } }, { "capture-misuse", { "C11" } }, { "capture-pixels", { "C11" } }, { "capture-unknown", { "C11" } },
    { "schedule-dependent", { "C17" } } };
  return m;
}
static void report( const std::string & cls, const std::string & msg )
{
  InSim _;
  auto it = classes().find( cls );
  bool mine = it == classes().end() || it->second.count( W.cfg.prop );
  if ( mine ) violation( cls, msg );
  else { W.counters[ "other:" + cls ]++; logf( "(other property) %s: %s", cls.c_str(), msg.c_str() ); }
}
static std::string S( const char * f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
static std::string S( const char * f, ... ) { char b[ 600 ]; va_list ap; va_start( ap, f ); vsnprintf( b, sizeof b, f, ap ); va_end( ap ); return b; }

// ---------- what the sender put on the wire ----------
struct FrameRec {
  u32 no = 0, source = 0, target = 0, frags = 0, tsl = 0; std::vector<Bytes> parts; Bytes bytes; bool complete = false;
  u64 first_send = 0, last_send = 0; int parent = -2; // -1: initial state; -2: unknown
  std::vector<u64> sends;
  bool decoded = false, shown = false, bad = false; u64 hash = 0; int barcode = -1; VpFrameHdr hdr;
  int picture = -1; // capture it came from
  u64 push_lo = 0, push_hi = 0; // when it was queued
};
struct AckState { bool any = false; u64 seq = 0; Ack a; u64 t = 0; };
struct Capture { u64 number, call_t, t; u64 L = 0; u64 decided = NEVER; u64 next_call = NEVER; u64 pipe_before = 0; AckState at; int frames_before = 0; };
struct Stream { // one sender's output
  std::vector<FrameRec> frames;
  std::vector<Capture> caps;
  std::vector<std::pair<u64, AckState>> ack_hist; // accepted acks with the time of their recvmsg
  std::vector<u64> cum; // cumulative fragments of completed headers
  Node * node = nullptr;
  u32 initial = 0; bool have_initial = false; std::vector<u64> mark; // frames sent when picture k was taken
  struct Ctx { std::unique_ptr<VpxDec> d; int last; u64 used; };
  std::vector<Ctx> ctxs; u64 use = 0;
  int find_target( u32 s, int before ) const { for ( int i = std::min<int>( before, frames.size() ) - 1; i >= 0; i-- ) if ( frames[ i ].target == s ) return i; return -2; }
  void decode( int f, Picture * out = nullptr );
};
void Stream::decode( int f, Picture * out )
{
  if ( frames[ f ].decoded && !out ) return;
  std::vector<int> chain; int i = f;
  int ctx = -1;
  while ( true ) {
    if ( i < 0 ) break;
    if ( i != f || !out ) for ( size_t c = 0; c < ctxs.size(); c++ ) if ( ctxs[ c ].last == i ) ctx = c;
    if ( ctx >= 0 && i != f ) break;
    if ( !frames[ i ].complete ) { frames[ f ].bad = true; frames[ f ].decoded = true; return; }
    chain.push_back( i );
    i = frames[ i ].parent;
  }
  if ( i == -2 ) { frames[ f ].bad = true; frames[ f ].decoded = true; return; }
  if ( ctx < 0 ) {
    if ( ctxs.size() < 3 ) { ctxs.push_back( {} ); ctx = ctxs.size() - 1; }
    else { ctx = 0; for ( size_t c = 1; c < ctxs.size(); c++ ) if ( ctxs[ c ].used < ctxs[ ctx ].used ) ctx = c; }
    ctxs[ ctx ].d.reset( new VpxDec ); ctxs[ ctx ].last = -1;
  }
  ctxs[ ctx ].used = ++use;
  for ( size_t k = chain.size(); k-- > 0; ) {
    FrameRec & r = frames[ chain[ k ] ];
    Picture p; bool shown;
    static u64 cost = 0; cost += 1500 + (u64) g_w * g_h / 8 + r.bytes.size();
    if ( cost > 60000000 && !W.stop ) { W.counters[ "runs_cut_short" ]++; logf( "run ends early: the reference decoder has done its share" ); W.stop = true; }
    bool ok = ctxs[ ctx ].d->decode( r.bytes, &p, &shown );
    ctxs[ ctx ].last = chain[ k ];
    if ( !r.decoded ) {
      r.decoded = true; r.shown = shown; r.bad = !ok;
      if ( shown ) { r.hash = picture_hash( p ); r.barcode = barcode_read( p ); }
      r.hdr = vp8_header( r.bytes );
    }
    if ( out && chain[ k ] == f ) *out = p;
    if ( !ok ) { ctxs[ ctx ].last = -5; frames[ f ].bad = true; frames[ f ].decoded = true; return; }
  }
}

// ---------- what the receiver must do ----------
struct Slot { bool exact; u64 hash; int frame; };
struct Pending { DataPkt p; sockaddr_in from; bool exact = false; u64 arrival_us; bool completes = false; bool src_ok = false; u64 t; };
struct RxModel {
  Node * node = nullptr;
  u64 next = 0;
  std::map<u32, Bytes> got; DataPkt head;
  std::deque<Pending> pend;
  bool any_ack = false; Ack last_ack;
  std::set<u32> may_list; std::vector<u32> must_list;
  double ewma = -1; u64 last_us = 0;
  std::vector<Slot> slots; std::set<size_t> pos{ 0 };
  u64 exact = 0, wild = 0, draws = 0, draws_matched = 0;
  std::vector<u64> draw_hashes; std::vector<std::pair<u64, u64>> draw_times;
  u64 last_recv = 0, last_ack_t = 0;
  std::map<u32, u64> exact_frames; // frame -> time
  std::map<u32, std::pair<u32, std::vector<u32>>> last_by_frame; // frame -> state and list of the last acknowledgement
};
static Stream tx, tx2;
static std::vector<RxModel *> rxs;
static RxModel * rx_of( Node * n ) { for ( auto r : rxs ) if ( r->node == n ) return r; return nullptr; }
static Node * sender = nullptr;
static AckState newest; // newest accepted ack at the sender
static const u32 CONN = 1337;
static const int RPORT = 9000;
static u32 R_IP = 0x0a000002, S_IP = 0x0a000001;
static Scene scene;
static Camera cam;
static bool use_barcode = true, check_capacity = false, check_pause = false;
static std::string mode = "s2";
static u64 t_heal = NEVER, t_stop = NEVER;
static u64 stall_bound = 0;
static std::function<void( const FrameRec & )> on_frame_complete;
static bool rx_checks = true, light = false; // light: no reference decoding

static u64 seq_of( const Ack & a, bool * ok )
{
  *ok = true;
  if ( a.frame == 0 ) return a.frag;
  if ( a.frame > tx.cum.size() ) { *ok = false; return 0; }
  return tx.cum[ a.frame - 1 ] + a.frag;
}
static void data_sent( Stream & s, Node * n, const Bytes & d )
{
  DataPkt p = data_parse( d );
  if ( !p.ok ) { report( "stream-header", "sender emitted a datagram that is not a data packet" ); return; }
  if ( p.conn != CONN ) { report( "stream-header", "wrong connection id" ); return; }
  if ( p.frags == 0 || p.frag >= p.frags ) { report( "stream-header", S( "fragment %u of %u", p.frag, p.frags ) ); return; }
  bool fresh = s.frames.empty() || s.frames.back().complete;
  if ( fresh ) {
    if ( p.frame != s.frames.size() || p.frag != 0 ) { report( "stream-order", S( "expected frame %zu fragment 0, saw frame %u fragment %u", s.frames.size(), p.frame, p.frag ) ); return; }
    FrameRec f; f.no = p.frame; f.source = p.source; f.target = p.target; f.frags = p.frags; f.tsl = p.tsl; f.first_send = W.now;
    if ( !s.have_initial ) { s.initial = p.source; s.have_initial = true; }
    f.parent = p.source == s.initial ? -1 : s.find_target( p.source, s.frames.size() );
    s.cum.push_back( ( s.cum.empty() ? 0 : s.cum.back() ) + p.frags );
    s.frames.push_back( std::move( f ) );
    W.counters[ "frames_sent" ]++;
    logf( "sender emits frame %u (%u fragments, %08x -> %08x)", p.frame, p.frags, p.source, p.target );
  }
  FrameRec & f = s.frames.back();
  if ( p.frame != f.no || p.frag != f.parts.size() ) { report( "stream-order", S( "expected frame %u fragment %zu, saw frame %u fragment %u", f.no, f.parts.size(), p.frame, p.frag ) ); return; }
  if ( p.source != f.source || p.target != f.target || p.frags != f.frags ) { report( "stream-header", S( "fragments of frame %u disagree", f.no ) ); return; }
  if ( p.frag && p.tsl ) { report( "stream-header", S( "frame %u fragment %u announces a pause of its own", p.frame, p.frag ) ); return; }
  f.parts.push_back( p.payload ); f.last_send = W.now; f.sends.push_back( W.now );
  W.counters[ "fragments_sent" ]++;
  if ( f.parts.size() == f.frags ) {
    f.complete = true;
    for ( auto & x : f.parts ) f.bytes.insert( f.bytes.end(), x.begin(), x.end() );
    if ( on_frame_complete && &s == &tx ) on_frame_complete( f );
  }
}

// sender receives an acknowledgement
static void ack_received( Node * n, const Dgram & d )
{
  Ack a = ack_parse( d.data );
  if ( !a.ok || a.conn != CONN ) return;
  bool ok; u64 q = seq_of( a, &ok );
  if ( !ok ) return;
  if ( newest.any && q < newest.seq ) { W.counters[ "acks_stale" ]++; return; }
  newest.any = true; newest.seq = q; newest.a = a; newest.t = W.now;
  tx.ack_hist.push_back( { W.now, newest } );
  W.counters[ "acks_accepted" ]++;
}

// receiver takes a datagram from its socket
static bool held( RxModel & r, u32 s ) { return s == tx.initial || ( r.any_ack && std::find( r.last_ack.list.begin(), r.last_ack.list.end(), s ) != r.last_ack.list.end() ); }
static void data_received( RxModel & r, const Dgram & d )
{
  DataPkt p = data_parse( d.data );
  r.last_recv = W.now;
  if ( !p.ok ) return;
  if ( p.frame < r.next ) { W.counters[ "late_fragments" ]++; return; } // no effect expected
  if ( p.frame > r.next ) {
    if ( !r.got.empty() ) {
      W.counters[ "frames_partial" ]++;
      if ( r.got.count( 0 ) ) { r.slots.push_back( { false, 0, (int) r.next } ); r.wild++; }
    }
    r.got.clear(); r.next = p.frame;
  }
  if ( r.got.count( p.frag ) ) W.counters[ "duplicate_fragments" ]++;
  else if ( !r.got.empty() && p.frag < r.got.rbegin()->first ) W.counters[ "fragments_out_of_order" ]++;
  r.got[ p.frag ] = p.payload;
  Pending q; q.p = p; q.from = d.from; q.arrival_us = d.arrival_rt_ns / 1000; q.t = W.now;
  if ( r.got.size() == p.frags ) {
    q.completes = true;
    bool h = held( r, p.source );
    q.src_ok = h || ( r.any_ack && r.last_ack.cur == p.source );
    if ( h && p.frame < tx.frames.size() && tx.frames[ p.frame ].complete ) {
      q.exact = true;
      if ( !light ) tx.decode( p.frame );
      FrameRec & f = tx.frames[ p.frame ];
      if ( f.bad ) { report( "stream-undecodable", S( "a standard decoder cannot decode frame %u", p.frame ) ); return; }
      if ( f.shown ) { r.slots.push_back( { true, f.hash, (int) p.frame } ); }
      r.exact++; r.exact_frames[ p.frame ] = W.now;
      W.counters[ "frames_exact" ]++;
    } else { r.slots.push_back( { false, 0, (int) p.frame } ); r.wild++; W.counters[ "frames_unheld" ]++; }
    r.got.clear(); r.next = p.frame + 1;
  }
  if ( W.log_on && !light && q.completes && p.frame < tx.frames.size() ) { tx.decode( p.frame ); logf( "receiver has all of frame %u (%08x -> %08x), %s, true picture %016lx", p.frame, p.source, p.target, q.exact ? "exact" : "from a state it does not hold", tx.frames[ p.frame ].hash ); }
  r.pend.push_back( std::move( q ) );
}
static void ack_sent( RxModel & r, const sockaddr_in & to, const Bytes & d )
{
  Ack a = ack_parse( d );
  r.last_ack_t = W.now;
  if ( !a.ok || a.conn != CONN ) { report( "ack-echo", "malformed acknowledgement or wrong connection" ); return; }
  if ( r.pend.empty() ) { report( "ack-extra", S( "acknowledgement for frame %u fragment %u without a datagram that calls for one", a.frame, a.frag ) ); return; }
  Pending q = std::move( r.pend.front() ); r.pend.pop_front();
  struct Upd { RxModel & r; Ack & a; ~Upd() { r.any_ack = true; r.last_ack = a; r.last_by_frame[ a.frame ] = { a.cur, a.list }; } } upd{ r, a };
  W.counters[ "acks_sent" ]++;
  if ( W.log_on ) { std::string l; for ( u32 x : a.list ) l += S( " %08x", x ); logf( "ack frame %u.%u delay %u state %08x list%s", a.frame, a.frag, a.avg, a.cur, l.c_str() ); }
  if ( to.sin_addr.s_addr != q.from.sin_addr.s_addr || to.sin_port != q.from.sin_port ) { report( "ack-destination", "acknowledgement sent elsewhere than to the datagram's source" ); return; }
  if ( a.frame != q.p.frame || a.frag != q.p.frag ) { report( "ack-echo", S( "datagram frame %u fragment %u answered with frame %u fragment %u", q.p.frame, q.p.frag, a.frame, a.frag ) ); return; }
  if ( r.ewma < 0 ) r.ewma = 0;
  else {
    int64_t dt = (int64_t) ( q.arrival_us - r.last_us ) - (int32_t) q.p.tsl;
    r.ewma = 0.1 * (double) std::max<int64_t>( 0, dt ) + 0.9 * r.ewma;
  }
  r.last_us = q.arrival_us;
  if ( fabs( (double) a.avg - floor( r.ewma ) ) > 1.5 + r.ewma * 1e-6 ) { report( "ack-delay", S( "frame %u fragment %u: reported delay %u us, arrivals give %.2f us", a.frame, a.frag, a.avg, r.ewma ) ); return; }
  if ( q.completes ) {
    // a frame decoded from another state than it was made for may still lead to its target (the damage was painted over)
    if ( q.src_ok || a.cur == q.p.target ) r.may_list.insert( q.p.target );
    // states from the source used onwards must stay listed
    if ( q.p.source != tx.initial ) {
      auto it = std::find( r.must_list.begin(), r.must_list.end(), q.p.source );
      if ( it != r.must_list.end() ) r.must_list.erase( r.must_list.begin(), it );
      else if ( r.any_ack && r.last_ack.cur == q.p.source ) r.must_list.clear(); // a state reached by accident, newer than the listed ones
    }
    if ( ( q.exact || a.cur == q.p.target ) && q.p.target != tx.initial ) r.must_list.push_back( q.p.target );
    if ( q.exact ) {
      if ( a.cur != q.p.target ) { report( "ack-not-target", S( "frame %u received in full from a held state, but the acknowledged state is %08x, not %08x", a.frame, a.cur, q.p.target ) ); return; }
      if ( q.p.target != tx.initial && std::find( a.list.begin(), a.list.end(), q.p.target ) == a.list.end() ) { report( "ack-not-target", S( "frame %u received in full from a held state, but %08x is not listed as complete", a.frame, q.p.target ) ); return; }
    }
  }
  for ( u32 s : a.list ) if ( !r.may_list.count( s ) ) { report( "ack-list", S( "state %08x is listed as complete, but no frame leading to it was received in full", s ) ); return; }
  for ( u32 s : r.must_list ) if ( std::find( a.list.begin(), a.list.end(), s ) == a.list.end() ) { report( "ack-list-incomplete", S( "state %08x is complete and not older than the last source, but is no longer listed", s ) ); return; }
}
static void picture_drawn( Node * n, const Picture & p )
{
  RxModel * r = rx_of( n );
  if ( !r ) return;
  u64 h = picture_hash( p );
  r->draws++; r->draw_hashes.push_back( h ); r->draw_times.push_back( { W.now, h } );
  W.counters[ "pictures_drawn" ]++;
  if ( !rx_checks ) return;
  std::set<size_t> np;
  for ( size_t i : r->pos )
    for ( size_t j = i; j < r->slots.size(); j++ ) {
      if ( !r->slots[ j ].exact || r->slots[ j ].hash == h ) np.insert( j + 1 );
      if ( r->slots[ j ].exact ) break;
    }
  if ( np.empty() ) {
    size_t i = *r->pos.begin(); std::string what = "nothing";
    for ( size_t j = i; j < r->slots.size(); j++ ) if ( r->slots[ j ].exact ) { what = S( "frame %d", r->slots[ j ].frame ); break; }
    int m = -1; for ( auto & s : r->slots ) if ( s.exact && s.hash == h ) m = s.frame;
    report( "picture-wrong", S( "picture %lu on the display is not the one the stream describes (expected %s; it %s)", r->draws, what.c_str(), m >= 0 ? S( "equals frame %d", m ).c_str() : "equals no frame" ) );
    return;
  }
  if ( np.size() > 64 ) { while ( np.size() > 64 ) np.erase( np.begin() ); }
  r->pos = np;
}
static void check_all_drawn( RxModel & r )
{
  for ( size_t i : r.pos ) {
    bool ok = true;
    for ( size_t j = i; j < r.slots.size(); j++ ) if ( r.slots[ j ].exact ) ok = false;
    if ( ok ) return;
  }
  size_t i = *r.pos.rbegin(); int f = -1;
  for ( size_t j = i; j < r.slots.size(); j++ ) if ( r.slots[ j ].exact ) { f = r.slots[ j ].frame; break; }
  report( "picture-missing", S( "frame %d was received in full from a held state and its picture was never drawn", f ) );
}

// ---------- sender: choice of source, pacing and capacity ----------
static std::set<u32> produced; // targets emitted so far
static int max_acked = -1;
static std::vector<u64> cap_suspicious; // capture times at which the acknowledged state may have been evicted or unknown
static u64 cons_until = 0;
struct CapChoice { bool must_conservative = false; u64 until = 0; u32 prev_target = 0; bool have_prev = false; };
static std::map<u64, CapChoice> choice;
static int frames_pushed_bound = 0;
static size_t kept_from = 0; // frames whose encoders an economical sender may have dropped
static void captured( Node * n, u64 number )
{
  if ( newest.any ) for ( size_t i = tx.frames.size(); i-- > kept_from; ) if ( tx.frames[ i ].target == newest.a.cur ) { kept_from = i; break; }
  Capture c; c.number = number; c.t = W.now; c.at = newest; c.frames_before = tx.frames.size();
  c.pipe_before = n->nonmain_pipe_write;
  tx.caps.push_back( c );
  W.counters[ "captures" ]++;
  // C05: which sources are legal for this picture
  CapChoice ch;
  bool susp = false, unknown = false;
  if ( newest.any && newest.a.cur != tx.initial ) {
    int f = -2; for ( int i = (int) tx.frames.size() - 1; i >= 0; i-- ) if ( tx.frames[ i ].target == newest.a.cur ) { f = i; break; }
    if ( f < 0 ) { unknown = susp = true; }
    else if ( f < max_acked ) susp = true;
    else max_acked = f;
  }
  // the state of a receiver that follows is the one after the acknowledged frame, or after the frame before it
  if ( newest.any && newest.a.frame > 0 && newest.a.frame < tx.frames.size() && newest.a.cur != tx.frames[ newest.a.frame ].target && newest.a.cur != tx.frames[ newest.a.frame - 1 ].target ) unknown = susp = true;
  if ( unknown ) {
    W.counters[ "captures_with_unknown_receiver_state" ]++;
    bool fresh = true;
    for ( u64 t : cap_suspicious ) if ( t + 5200 * MS > W.now ) fresh = false;
    ch.must_conservative = true;
    if ( fresh ) { cons_until = W.now + 4990 * MS; logf( "conservative at least until %lu (receiver reports %08x)", cons_until, newest.a.cur ); }
  }
  if ( susp ) cap_suspicious.push_back( W.now );
  ch.until = cons_until; // the source is chosen some time after the capture: see decided
  choice[ number ] = ch;
}
static void thread_created( Node * n ) { if ( n == tx.node && !tx.caps.empty() && tx.caps.back().decided == NEVER ) tx.caps.back().decided = W.now; }
static void next_capture_call( Node * n )
{
  if ( tx.caps.empty() ) return;
  Capture & c = tx.caps.back();
  if ( c.next_call == NEVER ) {
    c.next_call = W.now;
    c.L = n->nonmain_pipe_write > c.t && n->nonmain_pipe_write <= W.now ? n->nonmain_pipe_write : c.t;
  }
}
// states of the acknowledgement record between two instants
static std::vector<AckState> acks_between( u64 lo, u64 hi )
{
  std::vector<AckState> v; AckState last;
  for ( auto & x : tx.ack_hist ) { if ( x.first <= lo ) last = x.second; else if ( x.first <= hi ) v.push_back( x.second ); }
  v.insert( v.begin(), last );
  return v;
}
static u64 budget( const AckState & s, u64 cum )
{
  if ( !s.any ) return NEVER;
  int64_t pk = 100000 / (int64_t) std::max<u32>( 1, s.a.avg ) - (int64_t) ( cum - s.seq );
  return pk > 0 ? 1400ull * pk : 0;
}
static int last_pic = -1, last_q = 64;
static void frame_checks( const FrameRec & cf )
{
  FrameRec & f = tx.frames[ cf.no ];
  if ( !use_barcode ) return;
  tx.decode( f.no );
  if ( f.bad ) { report( "stream-undecodable", S( "a standard decoder cannot decode frame %u", f.no ) ); return; }
  if ( !f.shown || f.barcode < 0 ) { report( "capture-unknown", S( "frame %u shows no picture the camera delivered", f.no ) ); last_pic = -1; if ( f.hdr.ok ) last_q = f.hdr.q; return; }
  int k = -1; // the capture, by its number
  for ( int i = (int) tx.caps.size() - 1; i >= 0; i-- ) if ( ( tx.caps[ i ].number & 4095 ) == (u64) f.barcode ) { k = i; break; }
  if ( k < 0 || tx.caps[ k ].t > f.first_send ) { report( "capture-unknown", S( "frame %u shows picture %d, which was not captured before", f.no, f.barcode ) ); return; }
  f.picture = k;
  if ( k <= last_pic ) { report( "capture-order", S( "frame %u shows capture %d after capture %d was sent", f.no, k, last_pic ) ); return; }
  struct Keep { int k; FrameRec & f; ~Keep() { last_pic = k; if ( f.hdr.ok ) last_q = f.hdr.q; } } keep{ k, f };
  Capture & c = tx.caps[ k ];
  u64 L = c.next_call != NEVER ? c.L : ( sender->nonmain_pipe_write > c.t && sender->nonmain_pipe_write <= f.first_send ? sender->nonmain_pipe_write : c.t );
  if ( c.next_call == NEVER && sender->nonmain_pipe_write > f.first_send ) L = c.t;
  u64 U = std::min( f.first_send, c.next_call );
  if ( L > U ) L = c.t;
  // C06: the pause the frame announces is the time since the previous frame was queued
  if ( check_pause && f.no > 0 && tx.frames[ f.no - 1 ].picture >= 0 ) {
    FrameRec & pf = tx.frames[ f.no - 1 ];
    u64 lo = L > pf.push_hi ? L - pf.push_hi : 0, hi = U - pf.push_lo;
    W.counters[ "pauses_checked" ]++;
    if ( f.tsl * US + 50 * US < lo || f.tsl * US > hi + 50 * US ) { report( "announced-pause", S( "frame %u announces a pause of %u us, it was between %.0f and %.0f us", f.no, f.tsl, lo / 1e3, hi / 1e3 ) ); return; }
  }
  f.push_lo = L; f.push_hi = U;
  // C05
  {
    const AckState & s = c.at;
    bool listed = s.any && std::find( s.a.list.begin(), s.a.list.end(), f.source ) != s.a.list.end();
    bool init = f.source == tx.initial, prev = f.no > 0 && tx.frames[ f.no - 1 ].target == f.source;
    const CapChoice & ch = choice[ c.number ];
    if ( !listed && !init && !prev ) { report( "source-illegal", S( "frame %u is encoded against %08x: not initial, not the previous frame's result, not listed complete at capture", f.no, f.source ) ); return; }
    if ( ch.must_conservative || std::min( c.decided, c.next_call ) < ch.until ) {
      W.counters[ "frames_conservative" ]++;
      if ( !listed && !init ) { logf( "capture %lu t %lu unknown-window until %lu", c.number, c.t, cons_until ); report( "source-not-conservative", S( "frame %u, captured while the receiver is out of step, is encoded against %08x, which the newest acknowledgement does not list", f.no, f.source ) ); return; }
    }
  }
  if ( check_capacity ) {
    u64 cum = f.no ? tx.cum[ f.no - 1 ] : 0;
    int skips = k - last_pic - 1;
    bool first = f.no == 0;
    auto cand = acks_between( L, U );
    u64 hi = 0; for ( auto & s : cand ) hi = std::max( hi, budget( s, cum ) );
    if ( mode == "conventional" ) {
      if ( last_pic >= -1 && skips != 0 ) { report( "skip-illegal", S( "conventional mode left out %d captured pictures before frame %u", skips, f.no ) ); return; }
    } else {
      if ( skips > 3 ) { report( "too-many-skips", S( "%d captured pictures in a row were dropped before frame %u", skips, f.no ) ); return; }
      if ( f.bytes.size() > hi ) {
        W.counters[ "frames_forced" ]++;
        if ( skips != 3 ) { report( "over-budget", S( "frame %u has %zu bytes, capacity at the decision was at most %lu, after %d skips", f.no, f.bytes.size(), hi, skips ) ); return; }
        if ( f.hdr.ok && f.hdr.q != std::min( 127, last_q + 23 ) ) { report( "forced-not-smallest", S( "frame %u went out over budget with quantizer %d after %d, not the smallest encoding", f.no, f.hdr.q, last_q ) ); return; }
      }
      for ( int j = last_pic + 1; j < k; j++ ) { // skipped pictures
        W.counters[ "pictures_skipped" ]++;
        auto cs = acks_between( tx.caps[ j ].L, tx.caps[ j ].next_call );
        u64 lo = NEVER; for ( auto & s : cs ) lo = std::min( lo, budget( s, cum ) );
        if ( lo >= (u64) g_w * g_h * 3 + 4000 ) { report( "skip-illegal", S( "captured picture %d was skipped although the capacity was %s", j, lo == NEVER ? "not limited by any report" : "ample" ) ); return; }
      }
    }
  }
}

// C07: slots
static u64 pace_ub = 0;
struct Pace { bool any = false; u64 slot_lo = 0, slot_hi = 0; u64 last_send = 0; } pace;
static void pacing_checks( const FrameRec & f )
{
  if ( f.picture < 0 ) { pace.any = false; return; }
  Capture & c = tx.caps[ f.picture ];
  u64 L = c.next_call != NEVER && c.next_call <= f.first_send ? c.L : ( sender->nonmain_pipe_write > c.t && sender->nonmain_pipe_write <= f.first_send ? sender->nonmain_pipe_write : c.t );
  u64 U = std::min( f.first_send, c.next_call );
  if ( L > U ) L = c.t;
  auto cand = acks_between( L, U );
  u64 dlo = NEVER, dhi = 0;
  for ( auto & s : cand ) { u64 d = s.any ? std::min<u64>( 2000, std::max<u64>( 500, s.a.avg / 5 ) ) : 2000; dlo = std::min( dlo, d * US ); dhi = std::max( dhi, d * US ); }
  u64 lo0, hi0;
  if ( !pace.any ) { lo0 = L; hi0 = U; }
  else {
    bool surely_empty = pace.last_send < L, surely_queued = pace.last_send > U;
    u64 el = L, eh = U, ql = pace.slot_lo + dlo, qh = pace.slot_hi + dhi;
    if ( surely_empty ) { lo0 = el; hi0 = eh; }
    else if ( surely_queued ) { lo0 = ql; hi0 = qh; }
    else { lo0 = std::min( el, ql ); hi0 = std::max( eh, qh ); }
  }
  u64 lo = lo0, hi = hi0;
  for ( size_t i = 0; i < f.sends.size(); i++ ) {
    if ( i ) { lo += dlo; hi += dhi; }
    if ( f.sends[ i ] + MS + 20 * US < lo ) { report( "pacing-early", S( "frame %u fragment %zu left %.3f ms before its slot", f.no, i, ( lo - f.sends[ i ] ) / 1e6 ) ); return; }
    if ( pace_ub && f.sends[ i ] > std::max( hi, U ) + pace_ub ) { report( "pacing-late", S( "frame %u fragment %zu left %.3f ms after its slot", f.no, i, ( f.sends[ i ] - hi ) / 1e6 ) ); return; }
    W.counters[ "slots_checked" ]++;
  }
  pace.any = true; pace.slot_lo = lo; pace.slot_hi = hi; pace.last_send = f.sends.back();
}

// ---------- display ----------
std::function<void( Node *, const Picture & )> on_display_draw;
std::function<void( Node * )> on_display_open;
static double display_stall_p = 0; static u64 display_stall_max = 100 * MS, display_cost = 0;
extern "C" __attribute__( ( visibility( "default" ) ) ) void sim_display_open( unsigned, unsigned )
{
  sim_point( "display_open" );
  InSim _;
  if ( on_display_open ) on_display_open( tls_cur->node );
}
extern "C" __attribute__( ( visibility( "default" ) ) ) void sim_display_draw( unsigned w, unsigned h, unsigned cw, unsigned ch, const u8 * y, const u8 * u, const u8 * v, unsigned ys, unsigned cs )
{
  sim_point( "display_draw" );
  Picture p;
  { InSim _; p.w = w; p.h = h; p.y.resize( w * h ); p.u.resize( cw * ch ); p.v.resize( cw * ch );
    for ( unsigned r = 0; r < h / 2; r++ ) memcpy( &p.y[ r * w ], y + (size_t) r * ys, w ); }
  u64 m;
  u64 stall = display_cost;
  if ( display_stall_p > 0 && fault( F_DISPLAY_STALL, display_stall_p, &m ) ) stall += m % display_stall_max;
  if ( stall ) sim_wait( [] { return false; }, W.now + stall, "display" ); else sim_point( "display_upload" );
  { InSim _;
    for ( unsigned r = h / 2; r < h; r++ ) memcpy( &p.y[ r * w ], y + (size_t) r * ys, w );
    for ( unsigned r = 0; r < ch; r++ ) { memcpy( &p.u[ r * cw ], u + (size_t) r * cs, cw ); memcpy( &p.v[ r * cw ], v + (size_t) r * cs, cw ); }
    trace_event( 0xD1, tls_cur->node->id, picture_hash( p ) );
    logf( "picture drawn (barcode %d, hash %016lx)", barcode_read( p ), picture_hash( p ) );
    if ( on_display_draw ) on_display_draw( tls_cur->node, p );
    Picture().y.swap( p.y ); Bytes().swap( p.u ); Bytes().swap( p.v ); }
}

// ---------- set-up ----------
static bool dying_is_violation = true;
static void node_ended( Node * n )
{
  if ( n->st == Node::KILLED ) return;
  if ( !dying_is_violation ) return;
  std::string e = n->err.size() > 160 ? n->err.substr( n->err.size() - 160 ) : n->err;
  for ( auto & c : e ) if ( c == '\n' ) c = ' ';
  violation( "node-died", S( "%s ended: %s (status %d) %s", n->name.c_str(), n->why.c_str(), n->exit_status, e.c_str() ) );
}
static Node * start_receiver( const std::string & name, u32 ip, u64 when = 0, bool model = true )
{
  Node * n = node_start( name, "salsify-receiver.so", { "salsify-receiver", std::to_string( RPORT ), std::to_string( g_w ), std::to_string( g_h ) },
                         [ & ]( Node * x ) { x->ip = ip; x->on_end = [ x ] { node_ended( x ); }; }, when );
  if ( model ) { RxModel * r = new RxModel; r->node = n; rxs.push_back( r ); }
  return n;
}
static Node * start_sender( const std::string & name, u32 ip, const std::string & dev, const std::string & m, const std::string & fmt, const std::string & dest_ip, u64 when )
{
  std::vector<std::string> a = { "salsify-sender", "-m", m, "-d", dev, "-p", fmt };
  if ( W.cfg.has( "update_rate" ) ) { a.push_back( "-u" ); a.push_back( W.cfg.kv[ "update_rate" ] ); }
  for ( auto s : { dest_ip, std::to_string( RPORT ), std::to_string( CONN ) } ) a.push_back( s );
  return node_start( name, "salsify-sender.so", a, [ & ]( Node * x ) { x->ip = ip; x->on_end = [ x ] { node_ended( x ); }; }, when );
}
static Link & fwd() { return link_ip( S_IP, R_IP ); }
static Link & rev() { return link_ip( R_IP, S_IP ); }
static void partition( u64 t, u64 d, int dir )
{
  at( t, [ = ] {
    if ( W.faults_off || !fault( F_NET_PARTITION, 1.0 ) ) return;
    logf( "partition %d for %.3f s", dir, d / 1e9 );
    if ( dir & 1 ) fwd().cut = true;
    if ( dir & 2 ) rev().cut = true;
    at( W.now + d, [ = ] { logf( "partition %d ends", dir ); if ( t_stop == NEVER || W.now < t_stop ) { if ( dir & 1 ) fwd().cut = false; } if ( dir & 2 ) rev().cut = false; } );
  } );
}
static Node * receiver = nullptr;
static void crash_receiver( u64 t, u64 down )
{
  at( t, [ = ] {
    if ( W.faults_off || !fault( F_NODE_CRASH, 1.0 ) ) return;
    if ( !receiver->alive() ) return;
    node_kill( receiver, "crash" );
    at( W.now + down, [] { receiver = start_receiver( "receiver", R_IP ); } );
  } );
}
static void clock_jump( u64 t, int64_t d, bool snd )
{
  at( t, [ = ] {
    if ( W.faults_off || !fault( F_CLOCK_JUMP, 1.0 ) ) return;
    Node * n = snd ? sender : receiver;
    n->clock_off += d; logf( "clock of %s jumps by %.3f s", n->name.c_str(), d / 1e9 );
  } );
}
static void random_scheduler( Rng & g )
{
  switch ( g.below( 4 ) ) {
  case 0: W.sticky = 0.9; break;
  case 1: W.sticky = 0.5; break;
  case 2: W.prio_mode = true; break;
  default: break;
  }
  if ( g.chance( 0.6 ) ) { static const u64 gaps[] = { 40, 200, 1000, 5000 }; W.preempt_gap = gaps[ g.below( 4 ) ]; }
  W.spurious_p = g.chance( 0.3 ) ? 0.05 : 0;
  W.syscall_cost_max = 1 + g.below( 5 ) * US;
}
static void slow_hosts( Rng & g )
{
  if ( g.chance( 0.5 ) ) { W.stall_p = g.chance( 0.5 ) ? 0.002 : 0.0003; W.stall_max = g.chance( 0.5 ) ? 5 * MS : 60 * MS; }
  if ( g.chance( 0.4 ) ) { W.thread_delay_p = 0.1; W.thread_delay_max = g.chance( 0.3 ) ? 300 * MS : 40 * MS; }
}
static void base_hooks()
{
  on_udp_send = []( Node * n, const sockaddr_in & to, const Bytes & d ) {
    if ( n == tx.node ) data_sent( tx, n, d );
    else if ( n == tx2.node ) data_sent( tx2, n, d );
    else if ( auto r = rx_of( n ) ) { if ( rx_checks ) ack_sent( *r, to, d ); }
  };
  on_udp_recv = []( Node * n, const Dgram & d ) {
    if ( n == tx.node ) ack_received( n, d );
    else if ( auto r = rx_of( n ) ) { if ( rx_checks ) data_received( *r, d ); }
  };
  on_display_draw = picture_drawn;
  W.on_thread_create = thread_created;
  cam.source = []( u64 i ) { return scene.make( i ); };
  cam.on_dequeue_call = []( Node * n, u64 ) { if ( n == tx.node ) next_capture_call( n ); };
  cam.on_dequeue = []( Node * n, u64 k, const Picture & ) { if ( n == tx.node ) captured( n, k ); };
  cam.on_misuse = []( const std::string & m ) { report( "capture-misuse", m ); };
  cameras[ "/dev/video0" ] = &cam;
}
static void random_scene( Rng & g )
{
  static const int ws[] = { 64, 80, 96, 112, 128 }, hs[] = { 64, 80, 96, 48 };
  g_w = ws[ g.below( 5 ) ]; g_h = hs[ g.below( 4 ) ];
  if ( g.chance( 0.15 ) ) { static const int w2[] = { 176, 208, 240 }, h2_[] = { 144, 160, 128 }; g_w = w2[ g.below( 3 ) ]; g_h = h2_[ g.below( 3 ) ]; }
  static const int ns[] = { 0, 4, 15, 40, 90 };
  scene.seed = g.next(); scene.w = g_w; scene.h = g_h; scene.noise = ns[ g.below( 5 ) ]; scene.flat = g.chance( 0.2 );
  scene.cut_every = g.chance( 0.3 ) ? g.range( 5, 40 ) : 0;
  static const u64 iv[] = { 16, 33, 40, 66, 100 };
  cam.interval = iv[ g.below( 5 ) ] * MS + g.below( MS );
}
static void random_links( Rng & g, double level )
{
  u64 d = g.range( 1, 80 ) * MS;
  fwd().delay = d; rev().delay = g.chance( 0.5 ) ? d : g.range( 1, 80 ) * MS;
  for ( Link * l : { &fwd(), &rev() } ) {
    l->jitter = g.chance( 0.5 ) ? g.range( 0, 10 ) * MS : 0;
    if ( g.chance( 0.5 * level ) ) l->loss = g.chance( 0.3 ) ? 0.2 : g.unit() * 0.05;
    if ( g.chance( 0.3 * level ) ) { l->burst = 0.01; l->burst_max = g.range( 50, 800 ) * MS; }
    if ( g.chance( 0.4 * level ) ) l->dup = g.unit() * 0.2;
    if ( g.chance( 0.5 * level ) ) { l->reorder = g.unit() * 0.3; l->reorder_max = g.range( 5, 150 ) * MS; }
    if ( g.chance( 0.3 * level ) ) { l->bigdelay = 0.01; l->bigdelay_max = g.range( 200, 3000 ) * MS; }
  }
  if ( g.chance( 0.4 ) ) { fwd().rate = g.range( 20000, 400000 ); fwd().queue_bytes = g.range( 5000, 80000 ); }
}
static void heal()
{
  W.faults_off = true;
  for ( Link * l : { &fwd(), &rev() } ) { u64 d = l->delay; *l = Link(); l->delay = std::min<u64>( d, 40 * MS ); }
  W.stall_p = 0; W.thread_delay_p = 0;
  logf( "faults stop" );
}
static void stop_stream() { logf( "forward path closed for good" ); fwd().cut = true; t_stop = W.now; }

static void end_checks()
{
  // called when the forward path has been closed for a while
  for ( auto r : rxs ) {
    if ( !r->node->alive() ) continue;
    if ( !r->pend.empty() ) report( "ack-missing", S( "%zu datagrams were never acknowledged, the first for frame %u fragment %u", r->pend.size(), r->pend.front().p.frame, r->pend.front().p.frag ) );
    check_all_drawn( *r );
  }
}
static bool progress_watch = false;
static void watchdogs( u64 cap_limit )
{
  static u64 lim; lim = cap_limit;
  struct Wd { static void tick() {
    if ( sender && sender->alive() && t_stop == NEVER ) {
      u64 last = tx.caps.empty() ? 0 : tx.caps.back().t;
      if ( W.now > last + lim ) { report( "sender-stopped", S( "the sender has not captured a picture for %.1f s", ( W.now - last ) / 1e9 ) ); return; }
    }
    if ( progress_watch && sender->alive() ) { // among any four captured pictures one is sent, so the queue cannot stay silent
      u64 last = tx.frames.empty() ? 0 : tx.frames.back().last_send, n = 0;
      for ( size_t i = tx.caps.size(); i-- > 0 && tx.caps[ i ].t > last; ) if ( tx.caps[ i ].next_call != NEVER ) n++;
      if ( n > 12 && W.now > last + 150 * MS ) { report( "fragment-lost", S( "%lu pictures were captured since a packet last left, %.0f ms ago", n, ( W.now - last ) / 1e6 ) ); return; }
    }
    for ( auto r : rxs ) if ( r->node->alive() && !r->pend.empty() && W.now > r->pend.front().t + lim ) {
      report( "receiver-stopped", S( "a datagram of frame %u has not been acknowledged for %.1f s", r->pend.front().p.frame, ( W.now - r->pend.front().t ) / 1e9 ) ); return; }
    for ( auto r : rxs ) if ( r->node->alive() ) for ( auto & f : r->node->fds ) if ( auto u = dynamic_cast<UdpSock *>( f.second.get() ) )
      if ( !u->q.empty() && W.now > r->last_recv + lim && W.now > u->q.front().arrival_rt_ns - W.rt_base - r->node->clock_off + lim ) { report( "receiver-stopped", "datagrams wait at the receiver's socket and are not taken" ); return; }
    at( W.now + 200 * MS, tick ); } };
  at( W.now + lim, Wd::tick );
}
static u64 enc_base = 5 * MS, enc_jit = 10 * MS;
static void encode_cost( Rng & g )
{
  static const u64 b[] = { 1, 3, 8, 20 };
  enc_base = b[ g.below( 4 ) ] * MS; enc_jit = g.range( 1, 15 ) * MS;
  W.thread_start_cost = []( Node * n ) -> u64 {
    static u64 k = 0;
    u64 r = h3( W.cfg.seed, 0xe4c, k++ );
    return n == sender || n == tx2.node ? enc_base + r % enc_jit : r % ( 300 * US );
  };
}

// ---------- scenarios ----------
static void sc_session( Rng & g, const std::string & prop )
{
  random_scheduler( g );
  random_scene( g );
  encode_cost( g );
  mode = g.chance( 0.6 ) ? "s2" : g.chance( 0.6 ) ? "s1" : "conventional";
  bool nofault = g.chance( 0.1 );
  double level = nofault ? 0 : 1;
  random_links( g, level );
  if ( !nofault ) slow_hosts( g );
  display_stall_p = g.chance( 0.5 ) ? 0.1 : 0; display_cost = g.below( 3 ) * 3 * MS;
  use_barcode = true;
  u64 active = g.range( 3, 9 ) * SEC, tail = 1500 * MS;
  bool heals = prop == "C03" || g.chance( 0.4 );
  std::string fmt = "NV12";
  static const char * fmts[] = { "NV12", "YUYV", "YU12" };
  fmt = fmts[ g.below( 3 ) ];
  if ( prop == "C01" || prop == "C03" || prop == "C06" || prop == "C09" || prop == "C02" )
    if ( g.chance( 0.3 ) ) { scene.barcode = use_barcode = false; scene.noise = 0; scene.hold = g.chance( 0.5 ) ? 1000 : g.range( 2, 6 ); if ( g.chance( 0.5 ) ) scene.cut_every = g.range( 1, 3 ); }
  Rng sg( h2( W.cfg.seed, 0x51d ) ); bool calm = false; // later additions
  if ( prop == "C03" && !nofault && sg.chance( 0.3 ) ) { // a picture that stands still after a change that may not arrive
    scene.barcode = use_barcode = false; scene.noise = 0; scene.hold = 1000; scene.cut_every = sg.below( 2 );
    u64 change = active - sg.range( 50, 2000 ) * MS;
    scene.shift = 1000 - change / cam.interval;
    partition( change + sg.range( 0, 100 ) * MS, sg.range( 1, 10 ) * cam.interval, 1 );
    if ( sg.chance( 0.85 ) ) { fwd().loss = rev().loss = 0; fwd().burst = rev().burst = fwd().dup = 0; calm = true; if ( sg.chance( 0.7 ) ) { fwd().rate = 0; fwd().jitter = fwd().bigdelay = fwd().reorder = 0; fwd().delay = sg.below( 5000 ) * US; } }
    if ( sg.chance( 0.2 ) ) scene.flat = 1;
    W.counters[ "still_after_change" ]++;
  }
  if ( !nofault && !calm ) {
    int np = g.below( 4 );
    for ( int i = 0; i < np; i++ ) partition( g.range( 200, active / MS ) * MS, g.range( 20, g.chance( 0.2 ) ? 6000 : 1200 ) * MS, 1 + g.below( 3 ) );
  }
  if ( prop == "C02" || prop == "C03" ) if ( !nofault && !calm && g.chance( 0.4 ) ) { int n = 1 + g.below( 2 ); for ( int i = 0; i < n; i++ ) crash_receiver( g.range( 300, active / MS ) * MS, g.range( 1, 1500 ) * MS ); }
  if ( prop == "C06" && g.chance( 0.3 ) ) clock_jump( g.range( 300, active / MS ) * MS, (int64_t) g.range( 1, 4000 ) * (int64_t) MS * ( g.chance( 0.5 ) ? 1 : -1 ), false );
  if ( prop == "C09" ) { display_stall_p = g.chance( 0.7 ) ? 0.3 : 0.05; display_stall_max = g.range( 1, 400 ) * MS; if ( g.chance( 0.5 ) ) W.preempt_gap = g.range( 10, 300 ); }
  if ( prop == "C08" ) { check_capacity = true; }
  if ( prop == "C05" || prop == "C08" || prop == "C11" || prop == "C06" ) on_frame_complete = frame_checks;
  if ( prop == "C06" ) check_pause = true;
  if ( ( prop == "C02" || prop == "C11" || prop == "C03" ) && !nofault && g.chance( 0.3 ) ) W.cfg.kv[ "cam_stall_p" ] = "0.02";
  if ( prop == "C07" ) {
    scene.noise = g.chance( 0.7 ) ? 90 : 15; scene.flat = false;
    on_frame_complete = []( const FrameRec & f ) { frame_checks( f ); pacing_checks( tx.frames[ f.no ] ); };
    W.stall_p = 0; W.preempt_stall_max = 0; W.thread_delay_p = 0;
    cam.on_demand = g.chance( 0.5 );
    if ( cam.on_demand ) { static const u64 b[] = { 4, 10, 25 }; enc_base = b[ g.below( 3 ) ] * MS; active = std::min<u64>( active, 120 * ( enc_base + enc_jit / 2 ) + 500 * MS ); }
    pace_ub = ( cam.on_demand ? 0 : cam.interval + 3 * MS ) + 8 * MS;
    int nj = g.chance( 0.5 ) ? 1 + g.below( 3 ) : 0;
    for ( int i = 0; i < nj; i++ ) clock_jump( g.range( 100, active / MS ) * MS, (int64_t) g.range( 1, 20000 ) * (int64_t) MS * ( g.chance( 0.5 ) ? 1 : -1 ), true );
    progress_watch = true;
  }
  if ( g.chance( 0.2 ) ) fwd().rate = 0;

  base_hooks();
  if ( ( prop == "C05" || prop == "C08" ) && g.chance( 0.5 ) ) // acknowledgements of another session, from the same host
    for ( u64 t = 500 * MS; t < active; t += g.range( 20, 400 ) * MS ) {
      u64 z = g.next();
      at( t, [ z ] { if ( !sender->alive() || !fault( F_FOREIGN_ACK, 1.0 ) ) return;
        Ack a; a.conn = CONN + 1 + z % 7; a.frame = ( z >> 8 ) % ( 1 + tx.frames.size() ); a.frag = ( z >> 20 ) & 3; a.avg = ( z >> 24 ) % 200000; a.cur = z >> 32; for ( u64 i = 0; i < ( z & 3 ); i++ ) a.list.push_back( h2( z, i ) );
        udp_inject( sender, sim_addr( R_IP, RPORT ), ack_make( a ) ); } );
    }
  receiver = start_receiver( "receiver", R_IP, 0 );
  sender = start_sender( "sender", S_IP, "/dev/video0", mode, fmt, "10.0.0.2", g.below( 50 ) * MS + 10 * MS );
  tx.node = sender;
  watchdogs( 4 * SEC );
  if ( heals ) { t_heal = active; at( active, heal ); }
  u64 end = active;
  if ( prop == "C03" ) {
    u64 from = active + 6 * SEC, to = from + 2500 * MS;
    end = to;
    at( to + 700 * MS, [ from, to ] {
      // every frame whose first fragment left in [from, to] must have been applied exactly
      RxModel * r = rxs.back(); u64 n = 0; 
      for ( auto & f : tx.frames ) if ( f.first_send >= from && f.complete && f.last_send <= to ) {
        n++;
        if ( !r->exact_frames.count( f.no ) ) { report( "not-recovered", S( "frame %u left %.2f s after faults stopped and was not decoded exactly", f.no, ( f.first_send - t_heal ) / 1e9 ) ); return; }
      }
      u64 caps = 0; for ( auto & c : tx.caps ) if ( c.t >= from && c.t <= to ) caps++;
      u64 dr = 0; for ( auto & d : r->draw_times ) if ( d.first >= from && d.first <= to + 700 * MS ) dr++;
      if ( dr < 1 || n < 1 || dr + 3 < caps / 4 || n + 3 < caps / 4 ) report( "frozen", S( "in the %.1f s window after recovery %lu pictures were captured, %lu sent, %lu shown", ( to - from ) / 1e9, caps, n, dr ) );
      W.counters[ "recovery_frames_checked" ] += n;
    } );
    end += 800 * MS;
  }
  at( end, stop_stream );
  at( end + 200 * MS, [] { W.stall_p = 0; W.thread_delay_p = 0; display_stall_p = 0; W.faults_off = true; } );
  at( end + tail + ( prop == "C09" ? 20 * SEC : 3 * SEC ), [] { end_checks(); W.stop = true; } );
}

static sockaddr_in sock_addr( Node * n )
{
  for ( auto & f : n->fds ) if ( auto u = dynamic_cast<UdpSock *>( f.second.get() ) ) return u->local;
  return sim_addr( n->ip, 0 );
}
// C04: two receivers get the same fragments of every frame; one in order, the other shuffled,
// with duplicates and with late fragments of older frames. Everything observable must agree.
static void sc_permute( Rng & g )
{
  random_scheduler( g ); random_scene( g ); encode_cost( g );
  scene.noise = g.chance( 0.7 ) ? 90 : 40; scene.flat = false;
  if ( g.chance( 0.5 ) ) { g_w = scene.w = 176; g_h = scene.h = 144; }
  mode = g.chance( 0.5 ) ? "s2" : "conventional";
  base_hooks();
  static u32 R2 = R_IP + 1;
  receiver = start_receiver( "receiver", R_IP, 0 );
  Node * second = start_receiver( "receiver2", R2, 0 );
  sender = start_sender( "sender", S_IP, "/dev/video0", mode, "NV12", "10.0.0.2", 20 * MS );
  tx.node = sender;
  static double full_p; full_p = g.chance( 0.3 ) ? 1.0 : g.unit() * 0.4 + 0.6;
  static double dup_p; dup_p = g.unit() * 0.4;
  static double late_p; late_p = g.unit() * 0.4;
  static u64 key; key = g.next();
  rev().delay = g.range( 1, 40 ) * MS; if ( g.chance( 0.4 ) ) rev().loss = 0.1;
  static std::vector<Bytes> group; static u64 busy = 0; static std::vector<std::vector<Bytes>> sent;
  net_script = []( u32 src, u32 dst, const Bytes & d ) {
    if ( src == R2 ) return true;
    if ( src != S_IP ) return false;
    group.push_back( d );
    if ( tx.frames.empty() || !tx.frames.back().complete ) return true;
    u32 f = tx.frames.back().no;
    sent.push_back( group );
    Rng r( h2( key, f ) );
    std::vector<Bytes> a, b;
    bool full = r.chance( full_p );
    for ( auto & x : group ) if ( full || r.chance( 0.6 ) ) a.push_back( x ); else W.counters[ "fragments_withheld" ]++;
    b = a;
    if ( fault( F_NET_REORDER, 0.8 ) ) for ( size_t i = b.size(); i > 1; i-- ) std::swap( b[ i - 1 ], b[ r.below( i ) ] );
    size_t n0 = b.size();
    for ( size_t i = 0; i < n0; i++ ) if ( fault( F_NET_DUP, dup_p ) ) b.insert( b.begin() + r.range( 0, b.size() ), a[ r.below( a.size() ) ] );
    if ( !b.empty() && f > 0 ) for ( int i = 0; i < 2; i++ ) if ( fault( F_NET_DELAY, late_p ) ) {
      auto & o = sent[ f - 1 - r.below( std::min<u32>( f, 5 ) ) ];
      b.insert( b.begin() + r.range( 1, b.size() ), o[ r.below( o.size() ) ] );
    }
    u64 t0 = std::max( W.now + 5 * MS, busy ), t = t0;
    sockaddr_in from = sock_addr( sender );
    for ( auto & x : a ) { at( t, [ x, from ] { udp_deliver_to( R_IP, RPORT, from, x ); } ); t += r.below( 2 * MS ); }
    busy = t; t = t0;
    for ( auto & x : b ) { at( t, [ x, from ] { udp_deliver_to( R2, RPORT, from, x ); } ); t += r.below( 2 * MS ); }
    busy = std::max( busy, t );
    group.clear();
    return true;
  };
  u64 active = g.range( 2, 5 ) * SEC;
  watchdogs( 4 * SEC );
  at( active, [] { t_stop = W.now; W.faults_off = true; net_script = []( u32, u32, const Bytes & ) { return true; }; } );
  at( active + 4 * SEC, [] {
    end_checks();
    RxModel & a = *rxs[ 0 ], & b = *rxs[ 1 ];
    for ( auto & x : a.last_by_frame ) {
      auto y = b.last_by_frame.find( x.first );
      if ( y == b.last_by_frame.end() ) { report( "order-dependent", S( "frame %u was acknowledged in one arrival order and not in another", x.first ) ); return; }
      if ( x.second != y->second ) { report( "order-dependent", S( "after frame %u the receiver is in state %08x with %zu complete states, in another arrival order of the same fragments in %08x with %zu", x.first, x.second.first, x.second.second.size(), y->second.first, y->second.second.size() ) ); return; }
      W.counters[ "frames_compared" ]++;
    }
    if ( a.draw_hashes != b.draw_hashes ) report( "order-dependent", S( "%zu and %zu pictures were shown for the same fragments in different orders, or different ones", a.draw_hashes.size(), b.draw_hashes.size() ) );
    W.stop = true; } );
}
// C05, C08: the real sender against a scripted receiver that reports anything a receiver could report
static void sc_scripted( Rng & g, const std::string & prop )
{
  random_scheduler( g ); random_scene( g ); encode_cost( g );
  mode = g.chance( 0.7 ) ? "s2" : g.chance( 0.7 ) ? "s1" : "conventional";
  random_links( g, 1 );
  if ( g.chance( 0.3 ) ) { W.stall_p = 0.001; W.stall_max = 10 * MS; }
  base_hooks();
  on_frame_complete = frame_checks; check_capacity = prop == "C08";
  static double unknown_p, oldcur_p, answer_p; static u64 key, base_avg; static int list_max;
  unknown_p = g.chance( 0.4 ) ? 0.02 : g.chance( 0.5 ) ? 0.2 : 0; oldcur_p = g.chance( 0.5 ) ? 0.3 : 0; answer_p = g.chance( 0.3 ) ? 0.3 : 1; key = g.next();
  static const u64 bases[] = { 1, 300, 1500, 4000, 10000, 30000, 120000 }; base_avg = bases[ g.below( 7 ) ]; list_max = g.below( 6 );
  sender = start_sender( "sender", S_IP, "/dev/video0", mode, "YU12", "10.0.0.2", 20 * MS );
  tx.node = sender;
  net_script = []( u32 src, u32 dst, const Bytes & d ) {
    if ( src != S_IP ) return false;
    static u64 k = 0;
    Rng r( h2( key, k++ ) );
    DataPkt p = data_parse( d );
    if ( !p.ok || !r.chance( answer_p ) ) return true;
    Ack a; a.conn = CONN; a.frame = p.frame; a.frag = p.frag;
    a.avg = r.chance( 0.1 ) ? 0 : r.below( 2 * base_avg + 1 );
    auto some = [ & ]( u64 back ) { return tx.frames[ tx.frames.size() - 1 - r.below( std::min<u64>( back, tx.frames.size() ) ) ].target; };
    if ( r.chance( unknown_p ) ) a.cur = r.next(); else if ( r.chance( oldcur_p ) ) a.cur = some( 30 ); else a.cur = r.chance( 0.03 ) ? tx.initial : p.frag + 1 == p.frags ? p.target : p.source;
    u64 n = r.below( list_max + 1 );
    for ( u64 i = 0; i < n; i++ ) a.list.push_back( r.chance( 0.1 ) ? (u32) r.next() : some( 25 ) );
    net_transmit( R_IP, S_IP, ntohs( sock_addr( sender ).sin_port ), sim_addr( R_IP, RPORT ), ack_make( a ) );
    return true;
  };
  u64 active = g.range( 4, 12 ) * SEC;
  if ( g.chance( 0.5 ) ) for ( u64 t = 500 * MS; t < active; t += g.range( 20, 300 ) * MS ) {
    u64 z = g.next();
    at( t, [ z ] { if ( !sender->alive() || !fault( F_FOREIGN_ACK, 1.0 ) ) return;
      Ack a; a.conn = CONN + 1 + z % 7; a.frame = ( z >> 8 ) % ( 10 + 2 * tx.frames.size() ); a.frag = ( z >> 20 ) & 3; a.avg = ( z >> 24 ) % 200000; a.cur = z >> 32; for ( u64 i = 0; i < ( z & 3 ); i++ ) a.list.push_back( h2( z, i ) );
      udp_inject( sender, sim_addr( R_IP, RPORT ), ack_make( a ) ); } );
  }
  watchdogs( 4 * SEC );
  at( active, [] { W.stop = true; } );
}
// C10: a real receiver fed with a recorded stream and then with very many incomplete frames
static void sc_feed( Rng & g )
{
  random_scheduler( g ); W.preempt_gap = 0;
  random_scene( g ); encode_cost( g );
  g_w = scene.w = 64; g_h = scene.h = 64; cam.interval = 20 * MS; enc_base = 1 * MS; enc_jit = 3 * MS;
  scene.noise = 90; scene.cut_every = g.range( 3, 20 ); scene.flat = false;
  mode = g.chance( 0.5 ) ? "s2" : "conventional";
  base_hooks(); light = true; on_display_draw = nullptr;
  fwd().delay = rev().delay = g.range( 1, 10 ) * MS;
  receiver = start_receiver( "receiver", R_IP, 0 );
  sender = start_sender( "sender", S_IP, "/dev/video0", mode, "NV12", "10.0.0.2", 20 * MS );
  tx.node = sender;
  static std::vector<std::vector<Bytes>> rec; // datagrams of frames with several fragments
  static std::vector<Bytes> cur; static u32 no = 0, last_no = 0; static sockaddr_in from; static u64 key, sent = 0, fed = 0, total; static int64_t base = 0; static double first_p; static int burst; static u32 gap;
  key = g.next(); total = g.range( 3000, 9000 ); first_p = g.chance( 0.5 ) ? 0 : 0.03; burst = 1 + g.below( 3 ); gap = g.chance( 0.5 ) ? 1 : 1 + g.below( 20 );
  net_script = []( u32 src, u32, const Bytes & d ) {
    if ( src != S_IP ) return false;
    DataPkt p = data_parse( d ); if ( !p.ok ) return false;
    if ( !cur.empty() && data_parse( cur[ 0 ] ).frame != p.frame ) { if ( cur.size() > 1 ) rec.push_back( cur ); cur.clear(); }
    cur.push_back( d ); no = std::max( no, p.frame + 1 ); return false; };
  watchdogs( 4 * SEC );
  struct F {
    static void step() {
      if ( !receiver->alive() ) return;
      int64_t live = receiver->live_bytes;
      if ( fed < total / 4 ) base = std::max( base, live ); // everything that a stream of incomplete frames needs has been needed by now
      else {
        W.counters[ "memory_samples" ]++;
        if ( W.log_on && fed % 500 == 0 ) logf( "MEM after %llu incomplete frames: %ld, at first %ld", (unsigned long long) fed, (long) live, (long) base );
        if ( live > base + 150000 + 40 * (int64_t) fed ) { report( "memory-growth", S( "the receiver holds %ld bytes after %llu incomplete frames; it needed %ld for the first %llu", (long) live, (unsigned long long) fed, (long) base, (unsigned long long) total / 4 ) ); return; }
      }
      if ( fed >= total ) { W.stop = true; return; }
      Rng r( h2( key, fed++ ) );
      auto & f = rec[ r.below( rec.size() ) ];
      bool first = r.chance( first_p ); size_t n = 0; no += 1 + r.below( gap );
      fault( F_NET_LOSS, 1.0 );
      for ( size_t i = first ? 0 : 1; i < f.size(); i++ ) {
        if ( first && i + 1 == f.size() ) break; // never complete
        if ( n && r.chance( 0.3 ) ) continue;
        Bytes d = f[ i ]; for ( int k = 0; k < 4; k++ ) d[ 10 + k ] = no >> ( 8 * k );
        udp_deliver_to( R_IP, RPORT, from, d ); n++;
        if ( r.chance( 0.1 ) && fault( F_NET_DUP, 1.0 ) ) udp_deliver_to( R_IP, RPORT, from, d );
      }
      W.counters[ "incomplete_frames" ]++;
      at( W.now + 1 * MS, step );
    } };
  at( 2 * SEC, [] {
    if ( rec.empty() ) { W.counters[ "nothing_recorded" ]++; W.stop = true; return; }
    from = sock_addr( sender ); rx_checks = false; net_script = []( u32, u32, const Bytes & ) { return true; };
    node_kill( sender, "the recording is over" );
    at( W.now + 200 * MS, F::step ); } );
}
// C09: the real receiver fed with whole frames in bursts and after silences, its threads preempted at single memory
// accesses: every picture is drawn, also when nothing follows it
static void sc_display( Rng & g )
{
  random_scheduler( g ); random_scene( g );
  static const u64 gaps[] = { 2, 6, 20, 60, 200 }; W.preempt_gap = gaps[ g.below( 5 ) ];
  g_w = scene.w = std::min<int>( scene.w, 96 ); g_h = scene.h = std::min<int>( scene.h, 80 ); scene.flat = false;
  base_hooks(); light = true; rx_checks = false;
  static std::vector<Bytes> frames; static std::vector<Picture> want; static size_t next = 0, drawn = 0; static u32 no = 0; static u64 key, stall_bound; static double quiet_p, skip_p;
  VpxEncOpt o; o.q = 10 + g.below( 45 ); o.resilient = g.chance( 0.5 ); o.flags_seed = g.chance( 0.5 ) ? g.next() : 0; o.partitions = g.below( 3 );
  std::vector<Picture> pics; int n = g.range( 12, 60 ); for ( int i = 0; i < n; i++ ) pics.push_back( scene.make( i ) );
  frames = vpx_encode( pics, o );
  key = g.next(); quiet_p = g.chance( 0.5 ) ? 0.8 : g.unit(); skip_p = o.resilient && g.chance( 0.5 ) ? 0.1 : 0;
  display_stall_p = g.chance( 0.5 ) ? 0.3 : 0; display_stall_max = g.range( 1, 60 ) * MS; display_cost = g.below( 3 ) * MS;
  W.stall_p = g.chance( 0.3 ) ? 0.02 : 0; W.stall_max = 20 * MS; W.preempt_stall_max = g.chance( 0.5 ) ? 0 : 2 * MS;
  stall_bound = display_stall_max + display_cost + 40 * MS;
  static VpxDec * ref; ref = new VpxDec;
  on_display_draw = []( Node *, const Picture & p ) {
    W.counters[ "pictures_drawn" ]++;
    if ( drawn >= want.size() ) { report( "picture-wrong", S( "picture %zu is drawn, but only %zu frames were received", drawn, want.size() ) ); return; }
    if ( picture_hash( p ) != picture_hash( want[ drawn ] ) ) { report( "picture-wrong", S( "picture %zu on the display is not the one decoded from frame %zu", drawn, drawn ) ); return; }
    drawn++; };
  receiver = start_receiver( "receiver", R_IP, 0, false );
  net_script = []( u32, u32, const Bytes & ) { return true; };
  watchdogs( 4 * SEC );
  struct F {
    static void check() {
      if ( drawn < want.size() ) report( "picture-missing", S( "%zu frames were received, %zu pictures drawn, and nothing has happened since", want.size(), drawn ) );
      else W.counters[ "silences_checked" ]++; }
    static void step() {
      if ( !receiver->alive() ) return;
      if ( next >= frames.size() ) { W.stop = true; return; }
      Rng r( h2( key, next ) );
      const Bytes & f = frames[ next ];
      if ( next++ && r.chance( skip_p ) && fault( F_NET_LOSS, 1.0 ) ) { at( W.now, step ); return; }
      Picture p; bool shown = false;
      if ( !ref->decode( f, &p, &shown ) || !shown ) { W.counters[ "not_shown" ]++; W.stop = true; return; }
      sockaddr_in from = sim_addr( S_IP, 4000 );
      size_t size = r.chance( 0.5 ) ? 1400 : 200 + r.below( 1200 ), k = ( f.size() + size - 1 ) / size;
      for ( size_t i = 0; i < k; i++ ) {
        Bytes d; auto le = [ & ]( u32 v, int b ) { for ( int j = 0; j < b; j++ ) d.push_back( v >> ( 8 * j ) ); };
        le( CONN, 2 ); le( 0x51515151, 4 ); le( 0x52525252 + no, 4 ); le( no, 4 ); le( i, 2 ); le( k, 2 ); le( i ? 0 : 1000, 4 );
        d.insert( d.end(), f.begin() + i * size, f.begin() + std::min( f.size(), ( i + 1 ) * size ) );
        udp_deliver_to( R_IP, RPORT, from, d );
        if ( r.chance( 0.05 ) && fault( F_NET_DUP, 1.0 ) ) udp_deliver_to( R_IP, RPORT, from, d );
      }
      no++; want.push_back( p ); W.counters[ "frames_exact" ]++;
      bool quiet = r.chance( quiet_p ) || next >= frames.size();
      u64 wait = quiet ? ( want.size() - drawn + 1 ) * stall_bound + 500 * MS : r.below( 3 ) * r.below( 4 * MS );
      if ( quiet ) at( W.now + wait - 1, check );
      at( W.now + wait, step );
    } };
  at( 50 * MS, F::step );
}
// C10: long sessions
static void sc_memory( Rng & g )
{
  random_scheduler( g ); W.preempt_gap = 0;
  random_scene( g ); encode_cost( g );
  g_w = scene.w = 64; g_h = scene.h = 64; cam.interval = 20 * MS; enc_base = 1 * MS; enc_jit = 3 * MS;
  scene.noise = g.chance( 0.5 ) ? 15 : 60; scene.cut_every = 0; scene.flat = false;
  mode = g.chance( 0.6 ) ? "s2" : g.chance( 0.6 ) ? "s1" : "conventional";
  base_hooks(); light = true; on_display_draw = nullptr;
  fwd().delay = rev().delay = g.range( 1, 30 ) * MS;
  static double lossy; lossy = g.chance( 0.7 ) ? g.unit() * 0.15 : 0;
  static bool both, reorder, dup; both = g.chance( 0.5 ); reorder = g.chance( 0.5 ); dup = g.chance( 0.4 );
  receiver = start_receiver( "receiver", R_IP, 0 );
  sender = start_sender( "sender", S_IP, "/dev/video0", mode, "NV12", "10.0.0.2", 20 * MS );
  tx.node = sender;
  watchdogs( 4 * SEC );
  // calibration: what one frame that is not yet acknowledged costs the sender
  static u64 cal0 = 500 * MS, cal1 = 1300 * MS; static int64_t mem0, mem1; static size_t r0, r1, maxr = 0, maxm = 0; static int64_t base[ 2 ]; static u64 len;
  len = g.range( 10, 26 ) * SEC;
  at( cal0 - 150 * MS, [] { rev().cut = true; } );
  at( cal0, [] { mem0 = sender->live_bytes; r0 = tx.frames.size() - kept_from; } );
  at( cal1, [] { mem1 = sender->live_bytes; r1 = tx.frames.size() - kept_from; rev().cut = false;
    logf( "memory per unacknowledged frame: %ld bytes", r1 > r0 ? ( mem1 - mem0 ) / (int64_t) ( r1 - r0 ) : 0 ); } );
  at( cal1 + 500 * MS, [] { fwd().loss = lossy; rev().loss = both ? lossy : 0;
    if ( reorder ) { fwd().reorder = 0.2; fwd().reorder_max = 40 * MS; rev().reorder = 0.1; rev().reorder_max = 40 * MS; }
    if ( dup ) fwd().dup = rev().dup = 0.1; } );
  if ( g.chance( 0.6 ) ) for ( u64 t = 3 * SEC; t < len; t += 8 * SEC ) partition( t, g.range( 200, 2500 ) * MS, 1 + g.below( 3 ) );
  struct T { static void tick() {
    int64_t live[ 2 ] = { sender->live_bytes, receiver->live_bytes };
    size_t r = tx.frames.size() - kept_from, m = rxs[ 0 ]->must_list.size();
    maxr = std::max( maxr, r ); maxm = std::max( maxm, m );
    if ( W.log_on && W.now / MS % 100 == 0 ) logf( "MEM %zu frames, %zu unacknowledged, %zu states: %ld %ld", tx.frames.size(), r, m, live[ 0 ], live[ 1 ] );
    if ( W.now < 3 * SEC ) { for ( int k = 0; k < 2; k++ ) base[ k ] = std::max( base[ k ], live[ k ] ); }
    else {
      int64_t per = r1 > r0 + 10 ? std::max<int64_t>( 0, mem1 - mem0 ) / (int64_t) ( r1 - r0 ) : 0;
      int64_t fr = tx.frames.size();
      // what was needed for the calibration, plus what more unacknowledged frames need, plus a few bytes of bookkeeping per frame
      int64_t lim0 = base[ 0 ] * 5 / 4 + 400000 + 40 * fr + std::max<int64_t>( 0, (int64_t) maxr + 6 - (int64_t) r1 ) * ( per + per / 4 );
      int64_t lim1 = base[ 1 ] * 2 + 300000 + 40 * fr + (int64_t) ( maxm + 8 ) * 40000;
      W.counters[ "memory_samples" ]++;
      if ( per && live[ 0 ] > lim0 ) { report( "memory-growth", S( "the sender holds %ld bytes after %ld frames; it needed %ld for %zu unacknowledged frames and there have never been more than %zu", live[ 0 ], fr, base[ 0 ], r1, maxr ) ); return; }
      if ( live[ 1 ] > lim1 ) { report( "memory-growth", S( "the receiver holds %ld bytes after %ld frames; it needed %ld at first and there have never been more than %zu states to keep", live[ 1 ], fr, base[ 1 ], maxm ) ); return; }
    }
    for ( auto & f : tx.frames ) if ( f.no + 200 < tx.frames.size() && !f.parts.empty() ) { f.parts.clear(); Bytes().swap( f.bytes ); }
    if ( W.now + 5 * MS < len ) at( W.now + 5 * MS, tick ); else W.stop = true; } };
  at( 5 * MS, T::tick );
}
// C11: what the camera layer hands on, pixel for pixel
static Node * webcam = nullptr; static std::deque<std::pair<u64, u64>> expect_draw;
static void sc_webcam( Rng & g )
{
  random_scheduler( g ); random_scene( g );
  static const int ws[] = { 64, 80, 176, 32, 16, 320 }; g_w = scene.w = ws[ g.below( 6 ) ]; g_h = scene.h = ws[ g.below( 5 ) ] ;
  scene.barcode = g_w >= 64; scene.noise = 90;
  static const char * fmts[] = { "NV12", "YUYV", "YU12", "MJPG" };
  static std::string fmt; fmt = fmts[ g.below( 4 ) ]; jpeg_odd_rows = true;
  cam.source = []( u64 i ) { return scene.make( i ); };
  cam.on_demand = g.chance( 0.3 );
  cam.limit = g.range( 20, 80 );
  if ( g.chance( 0.5 ) ) display_stall_p = 0.3, display_stall_max = g.range( 1, 300 ) * MS;
  if ( g.chance( 0.4 ) ) W.cfg.kv[ "cam_stall_p" ] = "0.05";
  if ( g.chance( 0.5 ) ) { W.stall_p = 0.01; W.stall_max = 60 * MS; }
  static u64 last = NEVER;
  cam.on_dequeue = []( Node * n, u64 k, const Picture & p ) {
    if ( last != NEVER && k <= last ) report( "capture-order", "device pictures taken out of order" );
    last = k; expect_draw.push_back( { k, picture_hash( fmt == "MJPG" ? jpeg_picture( make_jpeg( p ) ) : p ) } ); W.counters[ "captures_" + fmt ]++; W.counters[ "captures" ]++; };
  cam.on_misuse = []( const std::string & m ) { report( "capture-misuse", m ); };
  on_display_draw = []( Node *, const Picture & p ) {
    W.counters[ "pictures_drawn" ]++;
    if ( expect_draw.empty() ) { report( "capture-pixels", "a picture was shown that was not captured" ); return; }
    auto e = expect_draw.front(); expect_draw.pop_front();
    if ( picture_hash( p ) != e.second && !( fmt == "MJPG" && e.first == 0 ) /* the first JPEG picture is not used, it may be broken */ ) { report( "capture-pixels", S( "picture %lu does not have the samples the device delivered", e.first ) ); return; } };
  cameras[ "/dev/video0" ] = &cam;
  webcam = node_start( "webcam", "real-webcam.so", { "real-webcam", "-d", "/dev/video0", "-p", fmt }, []( Node * n ) { n->ip = S_IP; n->on_end = [ n ] { node_ended( n ); }; } );
  u64 end = cam.limit * ( cam.interval + 100 * MS ) + 30 * SEC;
  at( end, [] {
    if ( expect_draw.size() > 0 ) report( "capture-pixels", S( "%zu captured pictures were never shown", expect_draw.size() ) );
    u64 taken = W.counters[ "captures" ], lost = W.counters[ "camera_dropped" ];
    if ( taken + lost < cam.limit ) report( "capture-misuse", S( "of %lu pictures the device had, %lu were taken and %lu had no free buffer: buffers are not given back", cam.limit, taken, lost ) );
    else if ( cam.on_demand && taken < cam.limit ) report( "capture-misuse", "pictures were not taken" );
    W.stop = true; } );
}
// C17: two senders see the same pictures and the same reports at the same points, under different schedules
static Camera cam2;
static void sc_differential( Rng & g )
{
  random_scheduler( g ); random_scene( g );
  // all of the sender is instrumented here, the encoder included: the candidates of a picture interleave anywhere
  W.preempt_gap = 0; if ( g.chance( 0.8 ) ) { static const u64 gaps[] = { 400, 4000, 40000, 200000 }; W.preempt_gap = gaps[ g.below( 4 ) ]; W.hot_weight = 1 + g.below( 3 ) * 100; }
  bool acks = g.chance( 0.6 );
  g_w = scene.w = std::min<int>( scene.w, 112 ); g_h = scene.h = std::min<int>( scene.h, 96 );
  std::string m1 = g.chance( 0.5 ) ? "s1" : "s2", m2 = "s2"; // the conventional mode changes its quality by the clock
  static u64 key, base_avg; key = g.next(); static bool use_acks; use_acks = acks;
  static const u64 bases[] = { 300, 1500, 4000, 10000, 30000 }; base_avg = bases[ g.below( 5 ) ];
  base_hooks(); on_frame_complete = nullptr;
  cam.on_demand = true; cam.limit = g.range( 15, 45 ); cam2 = cam; cam2.source = []( u64 i ) { return scene.make( i ); };
  cameras[ "/dev/video0" ] = &cam; cameras[ "/dev/video1" ] = &cam2;
  if ( !use_acks ) { W.stall_p = g.chance( 0.5 ) ? 0.005 : 0; W.stall_max = 40 * MS; W.thread_delay_p = 0.3; W.thread_delay_max = 100 * MS; }
  else { W.stall_p = g.chance( 0.5 ) ? 0.01 : 0; W.stall_max = 1 * MS; }
  W.preempt_stall_max = 5 * US;
  W.clock_points = true;
  if ( g.chance( 0.6 ) ) { // threads linger at one kind of call
    static const char * const calls[] = { "clock_gettime", "mutex_lock", "mutex_unlock", "futex_wake", "pthread_create" };
    W.hot_call = calls[ g.below( 5 ) ]; W.hot_call_p = 0.3;
    if ( !W.stall_p ) W.stall_max = 1 * MS;
  }
  static u64 jit; jit = g.chance( 0.6 ) ? 1 : use_acks ? 30 * MS : 60 * MS; static u64 floor_; // the candidates of a picture start together, or apart
  if ( jit == 1 && g.chance( 0.7 ) ) W.thread_delay_p = 0;
  floor_ = use_acks || jit == 1 ? 60 * MS : 0;
  W.thread_start_cost = []( Node * n ) -> u64 { static u64 k = 0; return floor_ + h3( W.cfg.seed, 0xe4c, k++ ) % jit; };
  // the report that arrives together with picture k is made once, by the sender that gets there first, from
  // frames it has sent by then, and given to both
  struct F { static void deq( Stream & s, u64 k ) {
    if ( !use_acks ) return;
    static std::map<u64, Bytes> memo;
    auto it = memo.find( k );
    if ( it == memo.end() ) {
      Rng r( h2( key, k ) ); Bytes b;
      size_t n = s.frames.size(); if ( n && !s.frames.back().complete ) n--;
      if ( n && !r.chance( 0.3 ) ) {
        FrameRec & f = s.frames[ n - 1 - r.below( std::min<size_t>( n, 4 ) ) ];
        Ack a; a.conn = CONN; a.frame = f.no; a.frag = r.below( f.frags ); a.avg = r.below( 2 * base_avg + 1 ); a.cur = f.target;
        a.list = { f.target }; b = ack_make( a );
      }
      it = memo.emplace( k, b ).first;
    }
    if ( it->second.empty() ) return;
    udp_inject( s.node, sim_addr( R_IP, RPORT ), it->second ); W.counters[ "reports" ]++;
  } };
  cam.on_dequeue = []( Node *, u64 k, const Picture & ) { F::deq( tx, k ); tx.mark.push_back( tx.frames.size() ); W.counters[ "captures" ]++; };
  cam2.on_dequeue = []( Node *, u64 k, const Picture & ) { F::deq( tx2, k ); tx2.mark.push_back( tx2.frames.size() ); W.counters[ "captures" ]++; };
  cam.on_dequeue_call = cam2.on_dequeue_call = nullptr;
  cam2.on_misuse = cam.on_misuse;
  fwd().cut = true; link_ip( S_IP + 5, R_IP ).cut = true;
  sender = start_sender( "sender", S_IP, "/dev/video0", m1, "NV12", "10.0.0.2", 20 * MS );
  Node * s2 = start_sender( "sender2", S_IP + 5, "/dev/video1", m2, "NV12", "10.0.0.2", 20 * MS );
  tx.node = sender; tx2.node = s2;
  on_udp_recv = nullptr;
  at( cam.limit * 400 * MS + 5 * SEC, [] {
    size_t n = std::min( tx.frames.size(), tx2.frames.size() );
    for ( size_t i = 0; i < n; i++ ) {
      FrameRec & a = tx.frames[ i ], & b = tx2.frames[ i ];
      if ( !a.complete || !b.complete ) break;
      W.counters[ "frames_compared" ]++;
      if ( a.bytes != b.bytes || a.source != b.source || a.target != b.target ) { report( "schedule-dependent", S( "frame %zu: %zu bytes %08x -> %08x in one schedule, %zu bytes %08x -> %08x in another", i, a.bytes.size(), a.source, a.target, b.bytes.size(), b.source, b.target ) ); break; }
    }
    if ( std::max( tx.frames.size(), tx2.frames.size() ) > n + 1 ) report( "schedule-dependent", S( "%zu frames in one schedule, %zu in another, from the same pictures", tx.frames.size(), tx2.frames.size() ) );
    W.stop = true; } );
}

void scenario_salsify()
{
  const std::string p = W.cfg.prop;
  Rng g( h3( W.cfg.seed, 0x5a15, hstr( p.c_str() ) ) );
  double alt = g.unit();
  if ( p == "C04" && alt < 0.6 ) sc_permute( g );
  else if ( ( p == "C05" || p == "C08" ) && alt < 0.5 ) sc_scripted( g, p );
  else if ( p == "C10" && alt < 0.3 ) sc_feed( g );
  else if ( p == "C09" && alt < 0.5 ) sc_display( g );
  else if ( p == "C10" ) sc_memory( g );
  else if ( p == "C11" && alt < 0.5 ) sc_webcam( g );
  else if ( p == "C17" ) sc_differential( g );
  else sc_session( g, p );
}
void finish_salsify()
{
  if ( W.deadlock && W.violations.empty() ) violation( "deadlock", "no thread can run and no event is due" );
}
