From 37e1c8a30fe48aab82a32a85bdfbcc271c4b534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:39 +0000
Subject: [PATCH 01/28] salsify: picture size can be chosen at compile time
 (guard: SALSIFY_CAMERA_WIDTH)

---
 src/salsify/real-webcam.cc    | 10 ++++++++--
 src/salsify/salsify-sender.cc |  8 +++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/salsify/real-webcam.cc b/src/salsify/real-webcam.cc
index abe8db7..fb69abe 100644
--- a/src/salsify/real-webcam.cc
+++ b/src/salsify/real-webcam.cc
@@ -37,6 +37,12 @@
 
 using namespace std;
 
+/* picture size requested from the camera (a simulator may choose another one) */
+#ifndef SALSIFY_CAMERA_WIDTH
+#define SALSIFY_CAMERA_WIDTH 1280
+#define SALSIFY_CAMERA_HEIGHT 720
+#endif
+
 void usage( const char *argv0 )
 {
   cerr << "Usage: " << argv0
@@ -79,9 +85,9 @@ int main( int argc, char *argv[] )
     }
   }
 
-  Camera camera { 1280, 720, PIXEL_FORMAT_STRS.at( pixel_format ), camera_device };
+  Camera camera { SALSIFY_CAMERA_WIDTH, SALSIFY_CAMERA_HEIGHT, PIXEL_FORMAT_STRS.at( pixel_format ), camera_device };
 
-  RasterHandle r { MutableRasterHandle{ 1280, 720 } };
+  RasterHandle r { MutableRasterHandle{ SALSIFY_CAMERA_WIDTH, SALSIFY_CAMERA_HEIGHT } };
   VideoDisplay display { r, fullscreen };
 
   while ( true ) {
diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index f3dd111..e8b093b 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -55,6 +55,12 @@
 #include "procinfo.hh"
 
 using namespace std;
+
+/* picture size requested from the camera (a simulator may choose another one) */
+#ifndef SALSIFY_CAMERA_WIDTH
+#define SALSIFY_CAMERA_WIDTH 1280
+#define SALSIFY_CAMERA_HEIGHT 720
+#endif
 using namespace std::chrono;
 using namespace PollerShortNames;
 
@@ -281,7 +287,7 @@ int main( int argc, char *argv[] )
   }
 
   /* camera device */
-  Camera camera { 1280, 720, PIXEL_FORMAT_STRS.at( pixel_format ), camera_device };
+  Camera camera { SALSIFY_CAMERA_WIDTH, SALSIFY_CAMERA_HEIGHT, PIXEL_FORMAT_STRS.at( pixel_format ), camera_device };
 
   /* construct the encoder */
   Encoder base_encoder { camera.display_width(), camera.display_height(),
-- 
2.43.0


From 0dbaf0ee287f694dccfd7393ad0b7055dece0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:24 +0000
Subject: [PATCH 02/28] fix: sender: do not die when the receiver's newest
 complete state has been dropped

In 'conservative' mode the sender encodes against the last state that the
receiver lists as complete. After reordered or lost acks the encoder for that
state may already be gone, and encoders.at() then ended the program with an
uncaught std::out_of_range. Use the newest listed state whose encoder is
still here, or the initial state.
---
 src/salsify/salsify-sender.cc | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index e8b093b..724f512 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -393,18 +393,25 @@ int main( int argc, char *argv[] )
        * if the packet loss is huge, we can always select an encoder with a sure
        * state. */
 
+      /* the newest state that the receiver has stored and that we still have
+         the encoder for, or the default state if there's no such state (acks can
+         be reordered, so we may have dropped the encoder of a listed state) */
+      const auto newest_common_state =
+        [&]() -> uint32_t {
+          for ( auto it = receiver_complete_states.rbegin();
+                it != receiver_complete_states.rend(); it++ ) {
+            if ( encoders.count( *it ) ) {
+              return *it;
+            }
+          }
+
+          return initial_state;
+        };
+
       /* if we're in 'conservative' mode, let's just encode based on something
          we're sure that is available in the receiver */
       if ( system_clock::now() < conservative_until ) {
-        if( receiver_complete_states.size() == 0 ) {
-          /* and the receiver doesn't have any other states, other than the
-             default state */
-          selected_source_hash = initial_state;
-        }
-        else {
-          /* the receiver has at least one stored state, let's use it */
-          selected_source_hash = receiver_complete_states.back();
-        }
+        selected_source_hash = newest_common_state();
       }
       else if ( not receiver_last_acked_state.initialized() ) {
         /* okay, we're not in 'conservative' mode */
@@ -429,15 +436,7 @@ int main( int argc, char *argv[] )
           cerr << "Going into 'conservative' mode for next "
                << conservative_for.count() << " seconds." << endl;
 
-          if( receiver_complete_states.size() == 0 ) {
-            /* and the receiver doesn't have any other states, other than the
-               default state */
-            selected_source_hash = initial_state;
-          }
-          else {
-            /* the receiver has at least one stored state, let's use it */
-            selected_source_hash = receiver_complete_states.back();
-          }
+          selected_source_hash = newest_common_state();
         }
         else {
           /* we assume that the receiver is in a right state */
-- 
2.43.0


From 2e65253a5780a68c14ed7e0627caaae5a15393c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:00 +0000
Subject: [PATCH 03/28] fix: receiver: keep a decoder state that is reached
 again later

When a state occurs twice among the complete states (a still picture brings
the decoder back to a state it was in before), moving past the first
occurrence erased the decoder although the later one stayed listed in the
acks. A frame that the sender then encoded against that listed state was
decoded from the wrong state. The sender already looks for later occurrences
before it drops an encoder; do the same here.
---
 src/salsify/salsify-receiver.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 20f6386..038e82b 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -28,6 +28,7 @@
 
 #include <getopt.h>
 
+#include <algorithm>
 #include <cstdlib>
 #include <random>
 #include <unordered_map>
@@ -281,7 +282,10 @@ int main( int argc, char *argv[] )
 
           for ( ; it != complete_states.end(); it++ ) {
             if ( *it != expected_source_state ) {
-              decoders.erase( *it );
+              /* the same state may have been reached again later */
+              if ( find( next( it ), complete_states.end(), *it ) == complete_states.end() ) {
+                decoders.erase( *it );
+              }
             }
             else {
               break;
-- 
2.43.0


From b804ba274378632cd55923974c25971d416da4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:12 +0000
Subject: [PATCH 04/28] fix: sender: conventional mode divides by a reported
 delay of zero

The receiver reports an inter-arrival delay of 0 us with its first ack (and
whenever packets arrive back to back); the rate update in the conventional
mode then ended the sender with SIGFPE. Treat 0 as 1, as target_size() does.
---
 src/salsify/salsify-sender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index 724f512..d1fbb0e 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -459,7 +459,7 @@ int main( int argc, char *argv[] )
         /* is it time to update the quality setting? */
         if ( next_cc_update <= system_clock::now() ) {
           const size_t old_quantizer = cc_quantizer;
-          cc_rate = 1000 * 1000 * 1400 / avg_delay;
+          cc_rate = 1000 * 1000 * 1400 / max( 1u, avg_delay );
 
           double change_percentage = ( 1.0 * cc_rate - 1.0 * cc_rate_ewma ) /
                                      ( 1.0 * cc_rate_ewma );
-- 
2.43.0


From 2461d0f992c30201feae6ae4509ad7b8f27b7733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:58 +0000
Subject: [PATCH 05/28] fix: pace outgoing packets by a clock that is never set

The pacer scheduled packets by system_clock. Setting the host's clock back
left the queue (and every later frame) waiting for the whole step, and a
step between the poll and the callback ended the sender with "busy wait
detected".
---
 src/net/pacer.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/net/pacer.hh b/src/net/pacer.hh
index 1a19632..111de57 100644
--- a/src/net/pacer.hh
+++ b/src/net/pacer.hh
@@ -38,7 +38,7 @@ class Pacer
 {
 private:
   struct ScheduledPacket {
-    std::chrono::system_clock::time_point when; /* scheduled outgoing time of packet */
+    std::chrono::steady_clock::time_point when; /* scheduled outgoing time of packet */
     std::string what; /* serialized packet contents */
   };
 
@@ -51,7 +51,7 @@ public:
       return 1000; /* could be infinite, but if there's a bug I'd rather we find it in the first second */
     }
 
-    int millis = std::chrono::duration_cast<std::chrono::milliseconds>( queue_.front().when - std::chrono::system_clock::now() ).count();
+    int millis = std::chrono::duration_cast<std::chrono::milliseconds>( queue_.front().when - std::chrono::steady_clock::now() ).count();
     if ( millis < 0 ) {
       millis = 0;
     }
@@ -63,7 +63,7 @@ public:
   void push( const std::string & payload, const int delay_microseconds )
   {
     if ( empty() ) {
-      queue_.push_back( { std::chrono::system_clock::now(), payload } );
+      queue_.push_back( { std::chrono::steady_clock::now(), payload } );
     } else {
       queue_.push_back( { queue_.back().when + std::chrono::microseconds( delay_microseconds ),
                           payload } );
-- 
2.43.0


From d777cfa130378a3262d310a3226ea5f30ccf75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:03 +0000
Subject: [PATCH 06/28] fix: SafeRaster: allocate the margin around the padded
 picture, which is what is copied

For a picture whose size is not a multiple of 16 the buffer was sized after
the displayed part, and copying the padded raster wrote past its end.
---
 src/decoder/safe_raster.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/safe_raster.cc b/src/decoder/safe_raster.cc
index 1105c7a..8f34ebf 100644
--- a/src/decoder/safe_raster.cc
+++ b/src/decoder/safe_raster.cc
@@ -31,7 +31,8 @@
 #include "decoder.hh"
 
 SafeRaster::SafeRaster( uint16_t width, uint16_t height )
-  : safe_Y_( width + MARGIN_WIDTH * 2, height + MARGIN_WIDTH * 2 ),
+  : safe_Y_( 16 * VP8Raster::macroblock_dimension( width ) + MARGIN_WIDTH * 2,
+             16 * VP8Raster::macroblock_dimension( height ) + MARGIN_WIDTH * 2 ),
     display_width_( width ), display_height_( height )
 {}
 
-- 
2.43.0


From 5ed8dfac499fa2f5ce207b6bac16e229ee02d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:10 +0000
Subject: [PATCH 07/28] fix: cover the mode-based loop filter adjustments by
 the state's hash

The range given ended where it began, so states that differ only in these
adjustments had the same name.
---
 src/decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 6f78782..b273c82 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -334,7 +334,7 @@ size_t FilterAdjustments::hash( void ) const
 
   boost::hash_range( hash_val, loopfilter_ref_adjustments.begin(), loopfilter_ref_adjustments.end() );
 
-  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_ref_adjustments.end() );
+  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_mode_adjustments.end() );
 
   return hash_val;
 }
-- 
2.43.0


From b0269ca8bb312cc4a14b115f0f6d4c0303934f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:29 +0000
Subject: [PATCH 08/28] fix: report a decoder state that could not be written

An unwritable or full disk left a missing or cut state file behind and the
program still exited with success.
---
 src/decoder/enc_state_serializer.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decoder/enc_state_serializer.hh b/src/decoder/enc_state_serializer.hh
index b1c362c..8958f8d 100644
--- a/src/decoder/enc_state_serializer.hh
+++ b/src/decoder/enc_state_serializer.hh
@@ -33,6 +33,7 @@
 #include <cstdio>
 #include <fstream>
 #include <iterator>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -108,6 +109,10 @@ class EncoderStateSerializer {
       std::ofstream output_file(filename);
       std::ostream_iterator<uint8_t> output_iter(output_file);
       std::copy(data_.begin(), data_.end(), output_iter);
+      output_file.close();
+      if (not output_file) {
+        throw std::runtime_error("could not write state to " + std::string(filename));
+      }
     }
 
     void write(const std::string &filename) {
@@ -115,7 +120,9 @@ class EncoderStateSerializer {
     }
 
     void write(FILE *file) {
-      std::fwrite(data_.data(), 1, data_.size(), file);
+      if (std::fwrite(data_.data(), 1, data_.size(), file) != data_.size()) {
+        throw std::runtime_error("could not write state");
+      }
     }
 };
 
-- 
2.43.0


From 46f81bfabb2ad242e0a18c5db92562e10abd3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:29 +0000
Subject: [PATCH 09/28] fix: vp8decode: report an output file that cannot be
 opened

---
 src/frontend/vp8decode.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/frontend/vp8decode.cc b/src/frontend/vp8decode.cc
index 37ee69b..b87ceb4 100644
--- a/src/frontend/vp8decode.cc
+++ b/src/frontend/vp8decode.cc
@@ -63,8 +63,14 @@ int main( int argc, char *argv[] )
           break;
 
         case 'o':
-          y4m_fd.initialize(fopen(optarg, "wb"));
+        {
+          FILE *y4m_file = fopen(optarg, "wb");
+          if (y4m_file == NULL) {
+            throw unix_error(optarg);
+          }
+          y4m_fd.initialize(y4m_file);
           break;
+        }
 
         default:
           return usage(argv[0]);
-- 
2.43.0


From 5d23f27b26a3832870dffce8ed4ecc090f195c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:41 +0000
Subject: [PATCH 10/28] fix: xc-enc: report frame sizes that cannot be read

A sizes file that could not be opened, or a read error, silently left the
remaining pictures with another target and the program exited with success.
---
 src/frontend/xc-enc.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frontend/xc-enc.cc b/src/frontend/xc-enc.cc
index f340631..66ec758 100644
--- a/src/frontend/xc-enc.cc
+++ b/src/frontend/xc-enc.cc
@@ -88,6 +88,10 @@ size_t read_next_frame_size( istream & in )
 
   if ( not in.eof() ) {
     in >> last_size;
+
+    if ( in.bad() or ( &in == &cin and ferror( stdin ) ) ) {
+      throw runtime_error( "could not read frame sizes" );
+    }
   }
 
   return last_size;
@@ -341,6 +345,10 @@ int main( int argc, char *argv[] )
       if ( encoder_mode == TARGET_FRAME_SIZE ) {
         if ( frame_sizes_file != "-" ) {
           frame_sizes_if.open( frame_sizes_file.c_str() );
+
+          if ( not frame_sizes_if.is_open() ) {
+            throw unix_error( frame_sizes_file );
+          }
         }
       }
 
-- 
2.43.0


From 639904f0a62d1aa41eec1604b8aba18dcfdfc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:41 +0000
Subject: [PATCH 11/28] fix: xc-decode-bundle: do not take a read error for the
 end of the list

---
 src/frontend/decode-bundle.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frontend/decode-bundle.cc b/src/frontend/decode-bundle.cc
index a08fd08..15369e7 100644
--- a/src/frontend/decode-bundle.cc
+++ b/src/frontend/decode-bundle.cc
@@ -26,6 +26,7 @@
    (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
    OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE. */
 
+#include <cstdio>
 #include <cstdio>
 #include <cstring>
 #include <iostream>
@@ -99,6 +100,10 @@ int main( int argc, char *argv[] )
       }
       cerr << filename << " exiting state: " << *player << "\n";
     }
+
+    if ( cin.bad() or ferror( stdin ) ) {
+      throw runtime_error( "could not read the list of files" );
+    }
   } catch ( const exception & e ) {
     print_exception( argv[ 0 ], e );
     return EXIT_FAILURE;
-- 
2.43.0


From 6cc0e6dfa62b8de23385865cb28b313198e3778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:59 +0000
Subject: [PATCH 12/28] fix: Optional: stay empty when constructing an assigned
 value fails

The object was marked as holding a value before the value existed, so a
failed allocation ended in the destruction of garbage.
---
 src/util/optional.hh | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/util/optional.hh b/src/util/optional.hh
index 74e9a6a..92540f7 100644
--- a/src/util/optional.hh
+++ b/src/util/optional.hh
@@ -90,13 +90,11 @@ public:
   const Optional & operator=( Optional<T> && other )
   {
     /* destroy if necessary */
-    if ( initialized_ ) {
-      object_.~T();
-    }
+    clear();
 
-    initialized_ = other.initialized_;
-    if ( initialized_ ) {
+    if ( other.initialized_ ) {
       new( &object_ ) T( std::move( other.object_ ) );
+      initialized_ = true;
     }
     return *this;
   }
@@ -105,13 +103,11 @@ public:
   const Optional & operator=( const Optional<T> & other )
   {
     /* destroy if necessary */
-    if ( initialized_ ) {
-      object_.~T();
-    }
+    clear();
 
-    initialized_ = other.initialized_;
-    if ( initialized_ ) {
+    if ( other.initialized_ ) {
       new( &object_ ) T( other.object_ );
+      initialized_ = true;
     }
     return *this;
   }
-- 
2.43.0


From 3c05eb77d8d6f832e69039f82f7e62216ff81234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:01 +0000
Subject: [PATCH 13/28] fix: report errors of xc-dissect, xc-merge, xc-ssim and
 fake-webcam instead of aborting

---
 src/frontend/xc-dissect.cc | 5 +++++
 src/frontend/xc-merge.cc   | 5 +++++
 src/frontend/xc-ssim.cc    | 5 +++++
 src/salsify/fake-webcam.cc | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/frontend/xc-dissect.cc b/src/frontend/xc-dissect.cc
index 3898db3..b03c2fa 100644
--- a/src/frontend/xc-dissect.cc
+++ b/src/frontend/xc-dissect.cc
@@ -367,6 +367,7 @@ void print_frame_info( const Frame<FrameHeaderType, MacroblockType> & frame, con
 }
 
 int main( int argc, char *argv[] )
+try
 {
   if ( argc <= 0 ) {
     abort();
@@ -476,3 +477,7 @@ int main( int argc, char *argv[] )
 
   return EXIT_SUCCESS;
 }
+catch ( const exception & e ) {
+  print_exception( argv[ 0 ], e );
+  return EXIT_FAILURE;
+}
diff --git a/src/frontend/xc-merge.cc b/src/frontend/xc-merge.cc
index 1d3b7da..5a86bd4 100644
--- a/src/frontend/xc-merge.cc
+++ b/src/frontend/xc-merge.cc
@@ -41,6 +41,7 @@ void usage_error( const string & program_name )
 
 
 int main( int argc, char *argv[] )
+try
 {
   if ( argc <= 0 ) {
     abort();
@@ -76,3 +77,7 @@ int main( int argc, char *argv[] )
 
   return EXIT_SUCCESS;
 }
+catch ( const exception & e ) {
+  print_exception( argv[ 0 ], e );
+  return EXIT_FAILURE;
+}
diff --git a/src/frontend/xc-ssim.cc b/src/frontend/xc-ssim.cc
index 49986be..9694f11 100644
--- a/src/frontend/xc-ssim.cc
+++ b/src/frontend/xc-ssim.cc
@@ -24,6 +24,7 @@ void usage_error( const string & program_name )
 
 
 int main( int argc, char *argv[] )
+try
 {
   if ( argc <= 0 ) {
     abort();
@@ -112,3 +113,7 @@ int main( int argc, char *argv[] )
 
   return EXIT_SUCCESS;
 }
+catch ( const exception & e ) {
+  print_exception( argv[ 0 ], e );
+  return EXIT_FAILURE;
+}
diff --git a/src/salsify/fake-webcam.cc b/src/salsify/fake-webcam.cc
index e9c4a83..9718c8e 100644
--- a/src/salsify/fake-webcam.cc
+++ b/src/salsify/fake-webcam.cc
@@ -41,6 +41,7 @@ void usage( const char *argv0 )
 }
 
 int main( int argc, char *argv[] )
+try
 {
   /* check the command-line arguments */
   if ( argc < 1 ) { /* for sticklers */
@@ -90,3 +91,7 @@ int main( int argc, char *argv[] )
     YUV4MPEGFrameWriter::write( raster.get(), stdout );
   }
 }
+catch ( const exception & e ) {
+  print_exception( argv[ 0 ], e );
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 3173593091a0d01c33b75ae24ecf0649c67ed33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:28 +0000
Subject: [PATCH 14/28] fix: refuse a decoder state whose parts do not fit
 together

---
 src/decoder/decoder.cc              | 44 +++++++++++------------------
 src/decoder/enc_state_serializer.hh | 37 ++++++++++++------------
 src/decoder/probability_tables.cc   |  8 ++----
 3 files changed, 38 insertions(+), 51 deletions(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index b273c82..80d443f 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -48,7 +48,9 @@ Decoder::Decoder( DecoderState state, References refs )
 Decoder::Decoder(EncoderStateDeserializer &idata)
   : state_(move(DecoderState::deserialize(idata)))
   , references_(move(References::deserialize(idata))) {
-  assert(idata.remaining() == 0);
+  idata.require(idata.remaining() == 0);
+  idata.require(references_.last.get().display_width() == state_.width
+                and references_.last.get().display_height() == state_.height);
 }
 
 size_t Decoder::serialize(EncoderStateSerializer &odata) const {
@@ -69,13 +71,10 @@ size_t Decoder::serialize(EncoderStateSerializer &odata) const {
 }
 
 Decoder Decoder::deserialize(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER);
-  (void) data_type;   // not used except in assert
+  idata.require(idata.get_tag() == EncoderSerDesTag::DECODER);
 
   uint32_t len = idata.get<uint32_t>();
-  assert(len == idata.remaining());
-  (void) len;         // not used except in assert
+  idata.require(len == idata.remaining());
 
   return Decoder(idata);
 }
@@ -197,13 +196,10 @@ size_t References::serialize(EncoderStateSerializer &odata) const {
 }
 
 References References::deserialize(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::REFERENCES);
-  (void) data_type;   // unused
+  idata.require(idata.get_tag() == EncoderSerDesTag::REFERENCES);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  idata.require(get_len <= idata.remaining());
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -244,11 +240,14 @@ DecoderState::DecoderState(EncoderStateDeserializer &idata, const unsigned s_wid
   , height(s_height)
   , probability_tables(move(ProbabilityTables::deserialize(idata))) {
   EncoderSerDesTag seg_opt = idata.get_tag();
+  idata.require(seg_opt == EncoderSerDesTag::OPT_FULL or seg_opt == EncoderSerDesTag::OPT_EMPTY);
   if (seg_opt == EncoderSerDesTag::OPT_FULL) {
     segmentation = move(Segmentation::deserialize(idata));
+    idata.require(segmentation.get().map.width() == width and segmentation.get().map.height() == height);
   }
 
   EncoderSerDesTag filt_opt = idata.get_tag();
+  idata.require(filt_opt == EncoderSerDesTag::OPT_FULL or filt_opt == EncoderSerDesTag::OPT_EMPTY);
   if (filt_opt == EncoderSerDesTag::OPT_FULL) {
     filter_adjustments = move(FilterAdjustments::deserialize(idata));
   }
@@ -314,13 +313,10 @@ size_t DecoderState::serialize(EncoderStateSerializer &odata) const {
 }
 
 DecoderState DecoderState::deserialize(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER_STATE);
-  (void) data_type;   // unused
+  idata.require(idata.get_tag() == EncoderSerDesTag::DECODER_STATE);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  idata.require(get_len <= idata.remaining());
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -357,15 +353,11 @@ size_t FilterAdjustments::serialize(EncoderStateSerializer &odata) const {
 }
 
 FilterAdjustments::FilterAdjustments(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::FILT_ADJ);
-  (void) data_type;   // not used except in assert
+  idata.require(idata.get_tag() == EncoderSerDesTag::FILT_ADJ);
 
   uint32_t expect_len = num_reference_frames + 4;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // not used except in assert
-  (void) get_len;     // "
+  idata.require(expect_len == get_len);
 
   for (unsigned i = 0; i < num_reference_frames; i++) {
     loopfilter_ref_adjustments.at(i) = idata.get<int8_t>();
@@ -423,16 +415,14 @@ size_t Segmentation::serialize(EncoderStateSerializer &odata) const {
 
 Segmentation Segmentation::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
+  idata.require(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
   bool abs = data_type == EncoderSerDesTag::SEGM_ABS;
 
   uint32_t get_len = idata.get<uint32_t>();
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
-  uint32_t expect_len = 4 + num_segments + num_segments + width * height;
-  assert(expect_len == get_len);
-  (void) expect_len;    // unused except in assert
-  (void) get_len;       // unused except in assert
+  uint64_t expect_len = 4 + num_segments + num_segments + uint64_t(width) * height;
+  idata.require(expect_len == get_len and get_len - 4 <= idata.remaining());
 
   return Segmentation(idata, abs, width, height);
 }
diff --git a/src/decoder/enc_state_serializer.hh b/src/decoder/enc_state_serializer.hh
index 8958f8d..e66cc36 100644
--- a/src/decoder/enc_state_serializer.hh
+++ b/src/decoder/enc_state_serializer.hh
@@ -40,6 +40,7 @@
 
 #include "file.hh"
 #include "file_descriptor.hh"
+#include "exception.hh"
 
 enum class EncoderSerDesTag : uint8_t
   { PROB_TABLE
@@ -160,6 +161,13 @@ class EncoderStateDeserializer : File {
       return static_cast<EncoderSerDesTag>((*this)(ptr_++, 1).octet());
     }
 
+    // whatever the state was read from may have been damaged
+    static void require(const bool condition) {
+      if (not condition) {
+        throw Invalid("damaged decoder state");
+      }
+    }
+
     template<typename T> T get(void) {
       T ret = (T) 0;
       for (unsigned i = sizeof(ret); i > 0; i--) {
@@ -171,26 +179,19 @@ class EncoderStateDeserializer : File {
     }
 
     MutableRasterHandle get_ref(EncoderSerDesTag t, const uint16_t width, const uint16_t height) {
+      require(this->get_tag() == t);
+      uint64_t rwidth = 16 * VP8Raster::macroblock_dimension(width);
+      uint64_t rheight = 16 * VP8Raster::macroblock_dimension(height);
+
+      uint64_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
+      uint32_t get_len = this->get<uint32_t>();
+      require(get_len == expect_len and get_len <= this->remaining());
+
       MutableRasterHandle raster(width, height);
 
-      if (this->peek_tag() == t) {
-        EncoderSerDesTag data_type = this->get_tag();
-        assert(data_type == t);
-        (void) t;           // not used except in assert
-        (void) data_type;   // not used except in assert
-        unsigned rwidth = raster.get().width();
-        unsigned rheight = raster.get().height();
-
-        uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
-        uint32_t get_len = this->get<uint32_t>();
-        assert(get_len == expect_len);
-        (void) get_len;     // only used in assert
-        (void) expect_len;  // only used in assert
-
-        raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-      }
+      raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
 
       return raster;
     }
diff --git a/src/decoder/probability_tables.cc b/src/decoder/probability_tables.cc
index d0093cd..fbe9d7a 100644
--- a/src/decoder/probability_tables.cc
+++ b/src/decoder/probability_tables.cc
@@ -158,16 +158,12 @@ uint32_t ProbabilityTables::serialize(EncoderStateSerializer &odata) const {
 }
 
 ProbabilityTables::ProbabilityTables(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::PROB_TABLE);
-  (void) data_type;   // unused except in assert
+  idata.require(idata.get_tag() == EncoderSerDesTag::PROB_TABLE);
 
   uint32_t expect_len = BLOCK_TYPES * COEF_BANDS * PREV_COEF_CONTEXTS * ENTROPY_NODES +
                         y_mode_probs.size() + uv_mode_probs.size() + 2 * MV_PROB_CNT;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // uunusd except in assert
-  (void) get_len;     // "
+  idata.require(expect_len == get_len);
 
   for (unsigned i = 0; i < BLOCK_TYPES; i++) {
     for (unsigned j = 0; j < COEF_BANDS; j++) {
-- 
2.43.0


From 81c7e1509786b15c663555f9a4d35cce185fa126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:58 +0000
Subject: [PATCH 15/28] fix: refuse a decoder state for pictures of another
 size, and segments that do not exist

---
 src/decoder/macroblock.cc     | 4 ++++
 src/frontend/decode-bundle.cc | 5 +++--
 src/frontend/xc-dissect.cc    | 4 ++++
 src/frontend/xc-dump.cc       | 4 ++++
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index de92984..9621c0d 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -79,6 +79,10 @@ void Macroblock<FrameHeaderType, MacroblockHeaderType>::update_segmentation( Seg
 
   /* cache segment id of this macroblock*/
   segment_id_ = mutable_segmentation_map.at( context_.column, context_.row );
+
+  if ( segment_id_ >= num_segments ) {
+    throw Invalid( "no such segment" );
+  }
 }
 
 template <>
diff --git a/src/frontend/decode-bundle.cc b/src/frontend/decode-bundle.cc
index 15369e7..fc05c74 100644
--- a/src/frontend/decode-bundle.cc
+++ b/src/frontend/decode-bundle.cc
@@ -74,8 +74,9 @@ int main( int argc, char *argv[] )
         cerr << "Initializing with size " << ivf.width() << "x" << ivf.height() << "\n";
         if (argc > 1) {
           player.reset( new FramePlayer { move( EncoderStateDeserializer::build<FramePlayer>(argv[1]) ) } );
-          assert(ivf.width() == player->width());
-          assert(ivf.height() == player->height());
+          if (ivf.width() != player->width() or ivf.height() != player->height()) {
+            throw Unsupported("state vs. file dimension mismatch");
+          }
         } else {
           player.reset( new FramePlayer { ivf.width(), ivf.height() } );
         }
diff --git a/src/frontend/xc-dissect.cc b/src/frontend/xc-dissect.cc
index b03c2fa..891973a 100644
--- a/src/frontend/xc-dissect.cc
+++ b/src/frontend/xc-dissect.cc
@@ -442,6 +442,10 @@ try
                   ? Decoder( ivf.width(), ivf.height() )
                   : EncoderStateDeserializer::build<Decoder>( input_state );
 
+  if ( decoder.get_width() != ivf.width() or decoder.get_height() != ivf.height() ) {
+    throw Unsupported( "state vs. file dimension mismatch" );
+  }
+
   if ( not decoder.minihash_match( ivf.expected_decoder_minihash() ) ) {
     cerr << "WARNING: Decoder state does not match IVF expected decoder state. Coefficients will be incorrect.\n";
   }
diff --git a/src/frontend/xc-dump.cc b/src/frontend/xc-dump.cc
index 8dae0c3..18f6858 100644
--- a/src/frontend/xc-dump.cc
+++ b/src/frontend/xc-dump.cc
@@ -107,6 +107,10 @@ int main( int argc, char *argv[] )
                     ? Decoder( ivf.width(), ivf.height() )
                     : EncoderStateDeserializer::build<Decoder>( input_state );
 
+    if ( decoder.get_width() != ivf.width() or decoder.get_height() != ivf.height() ) {
+      throw Unsupported( "state vs. file dimension mismatch" );
+    }
+
     if ( not decoder.minihash_match( ivf.expected_decoder_minihash() ) ) {
       throw Invalid( "Decoder state / IVF mismatch" );
     }
-- 
2.43.0


From d597d75ab8f3a71cd9ec05bc9bd4f13b7c4c933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:04 +0000
Subject: [PATCH 16/28] fix: xc-enc: refuse a state or prediction video for
 pictures of another size

---
 src/frontend/xc-enc.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/frontend/xc-enc.cc b/src/frontend/xc-enc.cc
index 66ec758..c0771cb 100644
--- a/src/frontend/xc-enc.cc
+++ b/src/frontend/xc-enc.cc
@@ -82,6 +82,17 @@ void usage_error( const string & program_name )
        << endl;
 }
 
+Decoder load_state( const string & filename, const unsigned int width, const unsigned int height )
+{
+  Decoder decoder = EncoderStateDeserializer::build<Decoder>( filename );
+
+  if ( decoder.get_width() != width or decoder.get_height() != height ) {
+    throw Unsupported( "state vs. input dimension mismatch" );
+  }
+
+  return decoder;
+}
+
 size_t read_next_frame_size( istream & in )
 {
   static size_t last_size = numeric_limits<size_t>::max();
@@ -258,7 +269,7 @@ int main( int argc, char *argv[] )
     Decoder pred_decoder( input_reader->display_width(), input_reader->display_height() );
 
     if ( pred_file != "" and pred_ivf_initial_state != "") {
-      pred_decoder = EncoderStateDeserializer::build<Decoder>( pred_ivf_initial_state );
+      pred_decoder = load_state( pred_ivf_initial_state, input_reader->display_width(), input_reader->display_height() );
     }
 
     IVFWriter output { output_file, "VP80", input_reader->display_width(), input_reader->display_height(), 1, 1 };
@@ -286,6 +297,10 @@ int main( int argc, char *argv[] )
 
       IVF pred_ivf { pred_file };
 
+      if ( pred_ivf.width() != pred_decoder.get_width() or pred_ivf.height() != pred_decoder.get_height() ) {
+        throw Unsupported( "prediction IVF vs. input dimension mismatch" );
+      }
+
       if ( not pred_decoder.minihash_match( pred_ivf.expected_decoder_minihash() ) ) {
         throw Invalid( "Mismatch between prediction IVF and prediction_ivf_initial_state" );
       }
@@ -314,7 +329,7 @@ int main( int argc, char *argv[] )
         }
       }
 
-      Encoder encoder( EncoderStateDeserializer::build<Decoder>( input_state ),
+      Encoder encoder( load_state( input_state, input_reader->display_width(), input_reader->display_height() ),
                        two_pass, quality );
 
       output.set_expected_decoder_entry_hash( encoder.export_decoder().get_hash().hash() );
@@ -333,7 +348,7 @@ int main( int argc, char *argv[] )
       Encoder encoder = input_state == ""
         ? Encoder( input_reader->display_width(), input_reader->display_height(),
                    two_pass, quality )
-        : Encoder( EncoderStateDeserializer::build<Decoder>( input_state ),
+        : Encoder( load_state( input_state, input_reader->display_width(), input_reader->display_height() ),
                    two_pass, quality );
 
       if ( not input_state.empty() ) {
-- 
2.43.0


From d8f08208e59fcbab5d6449adf82cc5d32ead3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:11 +0000
Subject: [PATCH 17/28] fix: yuv4mpeg: read the last chroma column and row of
 pictures with odd sizes

---
 src/input/yuv4mpeg.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 3b69bc9..273c8c1 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -290,13 +290,13 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
     memcpy( &raster.get().Y().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().U().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().V().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-- 
2.43.0


From 7ad4e2150e72feda82e9c6f0dd6c8a9081ee8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:11 +0000
Subject: [PATCH 18/28] fix: yuv4mpeg: do not take a cut frame header for the
 end of the input

---
 src/input/yuv4mpeg.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 273c8c1..f80232c 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -276,6 +276,9 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
 
   string frame_header = fd_.getline();
   if ( fd_.eof() ) {
+    if ( not frame_header.empty() ) {
+      throw runtime_error( "yuv4mpeg2 input ends inside a frame header" );
+    }
     return {};
   }
 
-- 
2.43.0


From 8256803a7008a652c0d6b47de9c1a795c18780c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:11 +0000
Subject: [PATCH 19/28] fix: fake-webcam: keep time by a clock that is never
 set

---
 src/salsify/fake-webcam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/salsify/fake-webcam.cc b/src/salsify/fake-webcam.cc
index 9718c8e..b3a314b 100644
--- a/src/salsify/fake-webcam.cc
+++ b/src/salsify/fake-webcam.cc
@@ -64,7 +64,7 @@ try
 
   const auto interval_between_frames = chrono::microseconds( int( 1.0e6 / frames_per_second ) );
 
-  auto next_frame_is_due = chrono::system_clock::now();
+  auto next_frame_is_due = chrono::steady_clock::now();
 
   bool initialized = false;
   while ( true ) {
-- 
2.43.0


From 70d9fee3ee71e970f5a32f16a5715331ead8d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:05 +0000
Subject: [PATCH 20/28] fix: re-encoding against frames or states that use
 segmentation wrote a wrong final state

The re-encoder took over the segmentation header of a prediction frame without
applying it, and the encoder kept a loaded state's segmentation although the
frames it writes switch segmentation off; either way the state it exported was
not the one a decoder reaches. Segmentation in prediction frames is refused as
for key frames, and the encoder follows the decoder.
---
 src/encoder/encode_inter.cc | 5 +++++
 src/encoder/reencode.cc     | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index f442ad8..b549b42 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -158,6 +158,11 @@ void Encoder::update_decoder_state( const InterFrame & frame )
     decoder_state_.probability_tables.update( frame.header() );
   }
 
+  /* as in the decoder, a frame without segmentation switches it off */
+  if ( not frame.header().update_segmentation.initialized() ) {
+    decoder_state_.segmentation.clear();
+  }
+
   if ( frame.header().mode_lf_adjustments.initialized() ) {
     if ( decoder_state_.filter_adjustments.initialized() ) {
       decoder_state_.filter_adjustments.get().update( frame.header() );
diff --git a/src/encoder/reencode.cc b/src/encoder/reencode.cc
index f4ca8e0..e0c49f5 100644
--- a/src/encoder/reencode.cc
+++ b/src/encoder/reencode.cc
@@ -240,6 +240,10 @@ InterFrame Encoder::update_residues( const VP8Raster & original_raster,
 {
   InterFrame frame { width(), height() };
 
+  if ( original_frame.header().update_segmentation.initialized() ) {
+    throw Unsupported( "segmentation not supported" );
+  }
+
   const InterFrameHeader & of_header = original_frame.header();
   InterFrameHeader & if_header = frame.mutable_header();
 
@@ -367,6 +371,10 @@ void Encoder::reencode( const vector<RasterHandle> & original_rasters,
                                                              new_quantizer, last_frame ) ) );
     } else if ( prediction_frame_ref.first.initialized() ) {
       /* Option 3: Is this another KeyFrame? Then preserve it. */
+      if ( prediction_frame_ref.first.get().header().update_segmentation.initialized() ) {
+        throw Unsupported( "segmentation not supported" );
+      }
+
       ivf_writer.append_frame( write_frame( prediction_frame_ref.first.get() ) );
     } else if ( prediction_frame_ref.second.initialized() ) {
       /* Option 4: Is this an InterFrame? Then update residues. */
-- 
2.43.0


From 1cdb2d05b09763902f2b4bde959dc1b5387f599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 21/28] fix: limit a segment's quantizer index and loop filter
 level to their ranges, as VP8 specifies

Relative segment adjustments wrapped around (quantizer, 7 bits) or were
limited only after the mode- and reference-based adjustments (loop filter),
so that streams with segments were decoded differently from libvpx.
---
 src/decoder/frame.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 3ac43e9..0c47eac 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -161,6 +161,9 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
               ? 0
               : segment_filter.filter_level );
 
+        /* the adjusted level is limited before the mode- and reference-based adjustments */
+        segment_filter.filter_level = max( 0, min( 63, segment_filter.filter_level ) );
+
         segment_loopfilters.at( i ) = segment_filter;
       }
     }
@@ -193,10 +196,12 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
   if ( segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
-      segment_indices.y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
+      const int y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
         + ( segmentation.get().absolute_segment_adjustments
-            ? static_cast<Unsigned<7>>( 0 )
-            : segment_indices.y_ac_qi );
+            ? 0
+            : static_cast<int>( segment_indices.y_ac_qi ) );
+
+      segment_indices.y_ac_qi = max( 0, min( 127, y_ac_qi ) );
 
       segment_quantizers.at( i ) = Quantizer( segment_indices );
     }
-- 
2.43.0


From f068ab256cb0da282b1213124176435bd988e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 22/28] fix: keep loop filter adjustments that a frame header
 does not update

An adjustment without its update flag was reset to zero; VP8 keeps the
value it had.
---
 src/decoder/decoder_state.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 7740940..e91a07b 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -57,8 +57,8 @@ void FilterAdjustments::update( const HeaderType & header ) {
   /* update additional in-loop deblocking filter adjustments */
   if ( header.mode_lf_adjustments.get().initialized() ) {
     for ( unsigned int i = 0; i < loopfilter_ref_adjustments.size(); i++ ) {
-      loopfilter_ref_adjustments.at( i ) = header.mode_lf_adjustments.get().get().ref_update.at( i ).get_or( 0 );
-      loopfilter_mode_adjustments.at( i ) = header.mode_lf_adjustments.get().get().mode_update.at( i ).get_or( 0 );
+      loopfilter_ref_adjustments.at( i ) = header.mode_lf_adjustments.get().get().ref_update.at( i ).get_or( loopfilter_ref_adjustments.at( i ) );
+      loopfilter_mode_adjustments.at( i ) = header.mode_lf_adjustments.get().get().mode_update.at( i ).get_or( loopfilter_mode_adjustments.at( i ) );
     }
   }
 }
-- 
2.43.0


From 47b4e816a441ab57537572f6fe624d36ceabda36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 23/28] fix: sender: notice a receiver that missed a frame
 although its state is a known one

Frames that change nothing (a still picture) leave a receiver that missed an
earlier frame in a state that the sender has the encoder of, so the sender
waited forever for the frame to arrive.
---
 src/salsify/salsify-sender.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index d1fbb0e..f251363 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -320,6 +320,12 @@ int main( int argc, char *argv[] )
   Optional<uint32_t> receiver_assumed_state;
   deque<uint32_t> receiver_complete_states;
 
+  /* frame number => state after the frame */
+  vector<uint32_t> target_states;
+
+  /* does the latest ack say that the receiver follows the frames we sent? */
+  bool receiver_in_step = true;
+
   /* if the receiver goes into an invalid state, for this amount of seconds,
      we will go into a conservative mode: we only encode based on a known state */
   seconds conservative_for { 5 };
@@ -425,7 +431,8 @@ int main( int argc, char *argv[] )
         }
       }
       else {
-        if ( encoders.count( receiver_last_acked_state.get() ) == 0 ) {
+        if ( not receiver_in_step or
+             encoders.count( receiver_last_acked_state.get() ) == 0 ) {
           /* it seems that the receiver is in an invalid state */
 
           /* step 1: let's go into 'conservative' mode; just encode based on a
@@ -646,6 +653,7 @@ int main( int argc, char *argv[] )
       cumulative_fpf.push_back( ( frame_no > 0 )
                                 ? ( cumulative_fpf[ frame_no - 1 ] + ff.fragments_in_this_frame() )
                                 : ff.fragments_in_this_frame() );
+      target_states.push_back( target_minihash );
 
       /* now we assume that the receiver will successfully get this */
       receiver_assumed_state.reset( target_minihash );
@@ -683,6 +691,15 @@ int main( int argc, char *argv[] )
       last_acked = this_ack_seq;
       avg_delay = ack.avg_delay();
       receiver_last_acked_state.reset( ack.current_state() );
+
+      /* the state should be the one after the acked frame, or after the frame
+         before it if the acked frame is not complete yet. a frame that changes
+         nothing leaves a receiver that missed an earlier frame in a state that
+         we know, but that's not the state it should be in */
+      receiver_in_step = ack.frame_no() == 0 or
+                         ack.current_state() == target_states.at( ack.frame_no() ) or
+                         ack.current_state() == target_states.at( ack.frame_no() - 1 );
+
       receiver_complete_states = move( ack.complete_states() );
 
       return ResultType::Continue;
-- 
2.43.0


From 6c11be134ef3aaf6091195980b8e56bed2e04e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 24/28] fix: encoder: a recycled frame keeps nothing of its
 last use

The header of a frame from the pool kept the token probability updates (and
the reference probabilities) of the encoding that used it before, so the same
encoder, picture and quantizer gave different bytes depending on what had been
encoded before or alongside.
---
 src/encoder/encode_inter.cc | 15 ++++-----------
 src/encoder/encoder.cc      |  4 ++++
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index b549b42..1b7f562 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -566,17 +566,10 @@ void Encoder::optimize_interframe_probs( InterFrame & frame )
   uint8_t prob_last  = Encoder::calc_prob( probs[ 1 ].first, probs[ 1 ].first + probs[ 1 ].second );
   uint8_t prob_gf    = Encoder::calc_prob( probs[ 2 ].first, probs[ 2 ].first + probs[ 2 ].second );
 
-  if ( prob_inter > 0 ) {
-    frame.mutable_header().prob_inter = prob_inter;
-  }
-
-  if ( prob_last > 0 ) {
-    frame.mutable_header().prob_references_last = prob_last;
-  }
-
-  if ( prob_gf > 0 ) {
-    frame.mutable_header().prob_references_golden = prob_gf;
-  }
+  /* set even when 0 (never needed): the frame may be a recycled one */
+  frame.mutable_header().prob_inter = prob_inter;
+  frame.mutable_header().prob_references_last = prob_last;
+  frame.mutable_header().prob_references_golden = prob_gf;
 }
 
 template<>
diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 99acd88..1057904 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -432,6 +432,10 @@ void Encoder::optimize_probability_tables( FrameType & frame, const TokenBranchC
           if ( prob > 0 and prob != decoder_state_.probability_tables.coeff_probs.at( i ).at( j ).at( k ).at( l ) ) {
             frame.mutable_header().token_prob_update.at( i ).at( j ).at( k ).at( l ) = TokenProbUpdate( true, prob );
           }
+          else {
+            /* the frame may be a recycled one: nothing of its last use stays */
+            frame.mutable_header().token_prob_update.at( i ).at( j ).at( k ).at( l ) = TokenProbUpdate();
+          }
         }
       }
     }
-- 
2.43.0


From 29dc1974c851a8e95446d81c32ba739a98d3725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 25/28] fix: encoder: size estimates do not depend on a
 recycled raster

Only one corner of the raster is reconstructed for an estimate, but prediction
at its edge reads beyond it, where a recycled raster has old samples.
---
 src/encoder/size_estimation.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/encoder/size_estimation.cc b/src/encoder/size_estimation.cc
index ad35d1c..6157355 100644
--- a/src/encoder/size_estimation.cc
+++ b/src/encoder/size_estimation.cc
@@ -57,6 +57,11 @@ size_t Encoder::estimate_size<KeyFrame>( const VP8Raster & raster, const size_t
 
   VP8Raster & reconstructed_raster = reconstructed_raster_handle.get();
 
+  /* only one corner gets reconstructed, and the prediction of its last column
+     also looks at the column after it: that must not be what a recycled
+     raster happened to hold */
+  reconstructed_raster.Y().fill( 0 );
+
   update_rd_multipliers( quantizer );
 
   // TokenBranchCounts token_branch_counts;
@@ -122,6 +127,11 @@ size_t Encoder::estimate_size<InterFrame>( const VP8Raster & raster, const size_
 
   VP8Raster & reconstructed_raster = reconstructed_raster_handle.get();
 
+  /* only one corner gets reconstructed, and the prediction of its last column
+     also looks at the column after it: that must not be what a recycled
+     raster happened to hold */
+  reconstructed_raster.Y().fill( 0 );
+
   update_rd_multipliers( quantizer );
 
   frame.mutable_macroblocks().forall_ij(
-- 
2.43.0


From a0993d995866790e59038612b38a9e2ccedbaf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 26/28] fix: loop filter adjustments persist across frames that
 do not use them

As VP8 specifies, a frame that switches the adjustments off leaves their values
for the next frame that switches them on.
---
 src/decoder/decoder_state.hh | 5 ++---
 src/decoder/frame.cc         | 4 +++-
 src/encoder/encode_inter.cc  | 2 --
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index e91a07b..309a438 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -130,15 +130,14 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
     probability_tables = frame_probability_tables;
   }
 
-  /* update adjustments to in-loop deblocking filter */
+  /* update adjustments to in-loop deblocking filter. they persist until they are
+     updated, also across frames that don't use them */
   if ( myframe.header().mode_lf_adjustments.initialized() ) {
     if ( filter_adjustments.initialized() ) {
       filter_adjustments.get().update( myframe.header() );
     } else {
       filter_adjustments.initialize( myframe.header() );
     }
-  } else {
-    filter_adjustments.clear();
   }
 
   /* update segmentation information */
diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 0c47eac..22ed997 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -170,13 +170,15 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
 
     /* the macroblock needs to know whether the mode- and reference-based
        filter adjustments are enabled */
+    const Optional<FilterAdjustments> adjustments_in_use = header_.mode_lf_adjustments.initialized()
+      ? filter_adjustments : Optional<FilterAdjustments>();
 
     macroblock_headers_.get().forall_ij( [&]( const MacroblockType & macroblock,
                                               const unsigned int column,
                                               const unsigned int row )
                                          {
                                            VP8Raster::Macroblock output = raster.macroblock( column, row );
-                                           macroblock.loopfilter( filter_adjustments,
+                                           macroblock.loopfilter( adjustments_in_use,
                                                                   segmentation.initialized()
                                                                   ? segment_loopfilters.at( macroblock.segment_id() )
                                                                   : frame_loopfilter,
diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index 1b7f562..91479e8 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -169,8 +169,6 @@ void Encoder::update_decoder_state( const InterFrame & frame )
     } else {
       decoder_state_.filter_adjustments.initialize( frame.header() );
     }
-  } else {
-    decoder_state_.filter_adjustments.clear();
   }
 }
 
-- 
2.43.0


From 246cdeec22bf6441a2cc2031374a7c6b41bf9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 27/28] fix: segmentation persists across frames that do not
 use it

A frame that does not use segmentation leaves the segments' parameters and
the segment map as they are for later frames, and a macroblock whose
segment has never been said is in segment 0 (RFC 6386, section 9.3).
---
 src/decoder/decoder.cc       |  2 +-
 src/decoder/decoder_state.hh |  9 ++++-----
 src/decoder/frame.cc         | 21 ++++++++++++++++-----
 src/decoder/frame.hh         |  2 ++
 src/encoder/encode_inter.cc  |  5 -----
 5 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 80d443f..5fd6993 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -442,7 +442,7 @@ bool Segmentation::operator==( const Segmentation & other ) const
 }
 
 Segmentation::Segmentation(const unsigned width, const unsigned height)
-  : map(width, height, 3) {}
+  : map(width, height, 0) {}
 
 Segmentation::Segmentation(EncoderStateDeserializer &idata,
                            const bool abs, const unsigned width, const unsigned height)
diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 309a438..35f2b8c 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -140,22 +140,21 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
     }
   }
 
-  /* update segmentation information */
+  /* update segmentation information. it persists until it is updated, also
+     across frames that don't use it */
   if ( myframe.header().update_segmentation.initialized() ) {
     if ( segmentation.initialized() ) {
       segmentation.get().update( myframe.header() );
     } else {
       segmentation.initialize( myframe.header(), width, height );
     }
-  } else {
-    segmentation.clear();
   }
 
   /* parse the frame (and update the persistent segmentation map) */
   myframe.parse_macroblock_headers( first_partition, frame_probability_tables,
                                     ( uncompressed_chunk.corruption_level() > CORRUPTED_RESIDUES ) );
 
-  if ( segmentation.initialized() ) {
+  if ( myframe.header().update_segmentation.initialized() ) {
     myframe.update_segmentation( segmentation.get().map );
   }
 
@@ -169,7 +168,7 @@ template <class HeaderType>
 Segmentation::Segmentation( const HeaderType & header,
                             const unsigned int width,
                             const unsigned int height )
-  : map( width, height, 3 )
+  : map( width, height, 0 )
 {
   update( header );
 }
diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 22ed997..2f99df0 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -136,12 +136,21 @@ void Frame<FrameHeaderType, MacroblockType>::parse_tokens( vector< Chunk > dct_p
                                                                   probability_tables ); } );
 }
 
+/* segmentation persists across frames that don't use it */
+template <class FrameHeaderType, class MacroblockType>
+bool Frame<FrameHeaderType, MacroblockType>::uses_segmentation( const Optional< Segmentation > & segmentation ) const
+{
+  return header_.update_segmentation.initialized() and segmentation.initialized();
+}
+
 template <class FrameHeaderType, class MacroblockType>
 void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segmentation > & segmentation,
                                                          const Optional< FilterAdjustments > & filter_adjustments,
                                                          VP8Raster & raster ) const
 {
   if ( header_.loop_filter_level ) {
+    const bool segmentation_in_use = uses_segmentation( segmentation );
+
     /* calculate per-segment filter adjustments if
        segmentation is enabled */
 
@@ -151,7 +160,7 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
 
     SafeArray< FilterParameters, num_segments > segment_loopfilters;
 
-    if ( segmentation.initialized() ) {
+    if ( segmentation_in_use ) {
       for ( uint8_t i = 0; i < num_segments; i++ ) {
         FilterParameters segment_filter( header_.filter_type,
                                          header_.loop_filter_level,
@@ -179,7 +188,7 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
                                          {
                                            VP8Raster::Macroblock output = raster.macroblock( column, row );
                                            macroblock.loopfilter( adjustments_in_use,
-                                                                  segmentation.initialized()
+                                                                  segmentation_in_use
                                                                   ? segment_loopfilters.at( macroblock.segment_id() )
                                                                   : frame_loopfilter,
                                                                   output ); } );
@@ -195,7 +204,7 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
 
   SafeArray< Quantizer, num_segments > segment_quantizers;
 
-  if ( segmentation.initialized() ) {
+  if ( uses_segmentation( segmentation ) ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
       const int y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
@@ -218,12 +227,13 @@ void KeyFrame::decode( const Optional< Segmentation > & segmentation, const Refe
 {
   const Quantizer frame_quantizer( header_.quant_indices );
   const auto segment_quantizers = calculate_segment_quantizers( segmentation );
+  const bool segmentation_in_use = uses_segmentation( segmentation );
 
   /* process each macroblock */
   macroblock_headers_.get().forall_ij( [&]( const KeyFrameMacroblock & macroblock,
                                             const unsigned int column,
                                             const unsigned int row ) {
-                                         const auto & quantizer = segmentation.initialized()
+                                         const auto & quantizer = segmentation_in_use
                                            ? segment_quantizers.at( macroblock.segment_id() )
                                            : frame_quantizer;
                                          VP8Raster::Macroblock output = raster.macroblock( column, row );
@@ -237,12 +247,13 @@ void InterFrame::decode( const Optional<Segmentation> & segmentation, const Refe
 {
   const Quantizer frame_quantizer( header_.quant_indices );
   const auto segment_quantizers = calculate_segment_quantizers( segmentation );
+  const bool segmentation_in_use = uses_segmentation( segmentation );
 
   /* process each macroblock */
   macroblock_headers_.get().forall_ij( [&]( const InterFrameMacroblock & macroblock,
                                             const unsigned int column,
                                             const unsigned int row ) {
-                                         const auto & quantizer = segmentation.initialized()
+                                         const auto & quantizer = segmentation_in_use
                                            ? segment_quantizers.at( macroblock.segment_id() )
                                            : frame_quantizer;
                                          VP8Raster::Macroblock output = raster.macroblock( column, row );
diff --git a/src/decoder/frame.hh b/src/decoder/frame.hh
index 576c27f..91c9971 100644
--- a/src/decoder/frame.hh
+++ b/src/decoder/frame.hh
@@ -63,6 +63,8 @@ class Frame
   Optional<TwoD<MacroblockType>> macroblock_headers_ {};
 
   ProbabilityArray< num_segments > calculate_mb_segment_tree_probs( void ) const;
+  bool uses_segmentation( const Optional< Segmentation > & segmentation ) const;
+
   SafeArray< Quantizer, num_segments > calculate_segment_quantizers( const Optional< Segmentation > & segmentation ) const;
 
   std::vector< uint8_t > serialize_first_partition( const ProbabilityTables & probability_tables ) const;
diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index 91479e8..352afa0 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -158,11 +158,6 @@ void Encoder::update_decoder_state( const InterFrame & frame )
     decoder_state_.probability_tables.update( frame.header() );
   }
 
-  /* as in the decoder, a frame without segmentation switches it off */
-  if ( not frame.header().update_segmentation.initialized() ) {
-    decoder_state_.segmentation.clear();
-  }
-
   if ( frame.header().mode_lf_adjustments.initialized() ) {
     if ( decoder_state_.filter_adjustments.initialized() ) {
       decoder_state_.filter_adjustments.get().update( frame.header() );
-- 
2.43.0


From 28d1bc9e334a4ce195ee944a2d2c6944fb1867b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 28/28] fix: encoder: measure the SSIM of the candidates when a
 minimum is asked for

The search for the coarsest quantizer that reaches the minimum SSIM kept
the state of every candidate and never asked for its SSIM, so the SSIM was
always taken to be zero and the finest quantizer was always chosen, whatever
xc-enc --ssim asked for.
---
 src/encoder/encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 1057904..58a5b0d 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -534,7 +534,7 @@ FrameType & Encoder::encode_with_quantizer_search( const VP8Raster & raster,
   while ( y_ac_qi_min <= y_ac_qi_max ) {
     quant_indices.y_ac_qi = ( y_ac_qi_min + y_ac_qi_max ) / 2;
 
-    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, true );
+    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, false, true );
 
     double current_ssim = encoded_frame.second;
 
-- 
2.43.0

