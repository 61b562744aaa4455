#pragma once
#include "sim.hh"
Bytes make_jpeg( const Picture & p ); // 4:2:2, as webcams deliver
extern bool jpeg_odd_rows;
Picture jpeg_picture( const Bytes & b ); // size a multiple of 16x8; chroma of the even rows
u64 picture_hash( const Picture & p );
// Independent VP8 decoder (libvpx), used as the reference.
struct VpxDec {
  void * ctx; bool ok = true;
  VpxDec(); ~VpxDec();
  bool decode( const Bytes & frame, Picture * out, bool * shown ); // false: libvpx reports an error
};
// libvpx encoder, for streams with features the repository's own encoder does not use.
struct VpxEncOpt { int q = 30, q_span = 4, lag = 0; bool resilient = false; int partitions = 0; bool altref = false; u64 flags_seed = 0; /* 0: default reference use */ bool segments = false; int segments_from = 0; int sharpness = 0, kf_every = 0; int profile = 0; };
std::vector<Bytes> vpx_encode( const std::vector<Picture> & ps, const VpxEncOpt & o );
// A VP8 inter frame that changes nothing: every macroblock repeats the last picture, nothing is refreshed.
Bytes vp8_noop_frame( int w, int h, bool segmentation, bool lf_deltas );
// The same with chosen side effects on the decoder's state.
struct CtlFrame {
  int w = 0, h = 0; bool seg = false, lf = false; int copy_g = 0, copy_a = 0; int ref = 0; /* 0 last, 1 golden, 2 altref */
  bool keep = false; // entropy changes persist
  std::map<int, int> coef; /* index 0..1055 */ std::map<int, int> mv; /* 0..37, 7 bits */ std::vector<int> ymode, uvmode;
  bool seg_data = false, seg_abs = false; int seg_q[ 4 ] = {}, seg_lf[ 4 ] = {}; std::vector<u8> map; /* per macroblock, empty: not updated */
  bool lf_upd = false; int lf_ref[ 4 ] = {}, lf_mode[ 4 ] = {};
  Bytes make() const;
};
struct RandFrames {
  Rng g; int w, h; bool always_shown = false, no_segments = false;
  int tame = 1; bool saved = false /* the tables kept since the key frame are this generator's */, seg_on = false, lf_on = false;
  bool among = false; // between frames of another origin
  int color_space = 0, clamping_type = 0, filter_type = 0, scaling = 0;
  RandFrames( u64 seed, int w_, int h_ ) : g( seed ), w( w_ ), h( h_ ) {}
  Bytes make( bool key ); // the first frame must be a key frame
};
// Scene generator: pictures with a machine-readable number.
struct Scene {
  u64 seed = 0; int w = 64, h = 64; int noise = 20; u64 hold = 1; // identical content for `hold` pictures
  u64 cut_every = 0, shift = 0; bool barcode = true; int flat = 0;
  Picture make( u64 i ) const;
};
int barcode_read( const Picture & p ); // -1 if unreadable
struct VpFrameHdr { bool key = false, show = false; unsigned part1 = 0; int w = 0, h = 0; int q = -1; bool refresh_last = false, refresh_golden = false, refresh_alt = false, seg = false, lf = false; bool ok = false; };
VpFrameHdr vp8_header( const Bytes & b );
std::string vp8_report( const Bytes & b, bool probs );
struct MbReader { struct In; In * in; MbReader(); MbReader( const MbReader & ) = delete; ~MbReader(); std::string next( const Bytes & frame, bool coefs ); size_t zero_runs(); }; // a stream's macroblocks in words
// file formats
struct Ivf { bool ok = false; int w = 0, h = 0; u32 claimed = 0; u32 reserved = 0; std::vector<Bytes> frames; bool truncated = false; Bytes header; };
Ivf ivf_parse( const Bytes & b );
Bytes ivf_make( int w, int h, const std::vector<Bytes> & frames, u32 reserved = 0 );
Bytes y4m_make( const std::vector<Picture> & ps, int fps = 24 );
struct Y4m { bool ok = false; std::string header; int w = 0, h = 0; std::vector<Picture> pics; size_t trailing = 0; };
Y4m y4m_parse( const Bytes & b );
