#!/usr/bin/env python3
"""developer tool: small deliberate breakages of /repo's sources in a scratch copy, and whether the property's check notices.
   mutants.py [ID...]   (scratch copy in /tmp/w/m)"""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/w/m'
L = []
def m(i, prop, f, old, new):
    L.append((i, prop, f, old, new))
S, R, P = 'src/salsify/salsify-sender.cc', 'src/salsify/salsify-receiver.cc', 'src/net/packet.cc'
m('m01-partial-not-dropped', 'C10', R, '          fragmented_frames.erase( i );\n        }', '        }')
m('m02-encoders-kept', 'C10', S, '              encoders.erase( *it );', '              ;')
m('m03-decoders-kept', 'C10', R, '                decoders.erase( *it );', '                ;')
m('m04-wait-if', 'C09', R, 'cv.wait( lock, []() { return not display_queue.empty(); } );', 'cv.wait( lock );')
m('m05-one-per-wake', 'C09', R, '    while( not display_queue.empty() ) {\n      display.draw', '    if( not display_queue.empty() ) {\n      display.draw')
m('m06-async-detached', 'C09', R, 'async( launch::async,\n    [&raster]()', 'thread(\n    [raster]()')
m('m07-qbuf-early', 'C11', 'src/input/camera.cc', '''  case V4L2_PIX_FMT_NV12:
    {''', '''  case V4L2_PIX_FMT_NV12:
    {
      SystemCall( "enqueue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_QBUF, &buffer_info ) );''')
m('m08-yuyv-odd-rows', 'C11', 'src/input/camera.cc', 'dst_cb_start[ i ] = src[ row * width_ * 2 + column * 4 + 1 ];', 'dst_cb_start[ i ] = src[ ( row + 1 ) * width_ * 2 + column * 4 + 1 ];')
m('m09-skip4', 'C08', S, 'const size_t MAX_SKIPPED = 3;', 'const size_t MAX_SKIPPED = 4;')
m('m10-skipped-not-reset', 'C08', S, '      skipped_count = 0;\n      frame_no++;', '      frame_no++;')
m('m11-budget-no-inflight', 'C08', S, 'max_delay / avg_delay - ( last_sent - last_acked ) ) );', 'max_delay / avg_delay ) );')
m('m12-pacer-now', 'C07', 'src/net/pacer.hh', 'queue_.back().when + std::chrono::microseconds( delay_microseconds )', 'std::chrono::steady_clock::now() + std::chrono::microseconds( delay_microseconds )')
m('m13-min-delay', 'C07', S, 'min( 2000u, max( 500u, avg_delay / 5 ) )', 'min( 2000u, max( 100u, avg_delay / 5 ) )')
m('m14-ack-order', 'C05', S, 'this_ack_seq < last_acked ) {', 'this_ack_seq + 2 < last_acked ) {')
m('m15-conn', 'C05', S, 'if ( ack.connection_id() != connection_id ) {', 'if ( false ) {')
m('m16-conservative-3s', 'C05', S, 'seconds conservative_for { 5 };', 'seconds conservative_for { 3 };')
m('m17-ack-before-add', 'C06', R, 'avg_delay.add( new_fragment.timestamp_us, packet.time_since_last() );', 'if ( not ( packet.fragment_no() and fragmented_frames.count( packet.frame_no() ) == 0 and packet.frame_no() != next_frame_no - 1 ) ) avg_delay.add( new_fragment.timestamp_us, 0 );')
m('m18-stale-add', 'C06', R, '        /* we\'re not interested in this anymore */', '        avg_delay.add( new_fragment.timestamp_us, packet.time_since_last() );')
m('m19-complete-partial', 'C06', R, 'if ( current_state == fragment.target_state() and\n             current_state != initial_state ) {', 'if ( current_state != initial_state ) {')
m('m20-no-restore', 'C01', R, 'player.set_decoder( decoders.at( expected_source_state ) );', ';')
m('m21-no-cur-update', 'C03', R, "        next_frame_no = packet.frame_no();\n        current_state = player.current_decoder().minihash();", "        next_frame_no = packet.frame_no();")
m('m22-newest-front', 'C03', S, 'receiver_complete_states.rbegin();\n                it != receiver_complete_states.rend()', 'receiver_complete_states.rend();\n                it != receiver_complete_states.rend()')
m('m23-assumed-always', 'C03', S, 'if ( not receiver_in_step or\n             encoders.count( receiver_last_acked_state.get() ) == 0 ) {', 'if ( encoders.count( receiver_last_acked_state.get() ) == 0 ) {')
m('m24-jump-next', 'C04', R, '        next_frame_no = packet.frame_no();\n', '        next_frame_no = max( next_frame_no, (size_t) packet.frame_no() );\n        if ( fragmented_frames.count( packet.frame_no() ) ) next_frame_no++;\n')
m('m25-static-q', 'C17', S, '  uint8_t quantizer_in_use = 0;', '  static uint8_t quantizer_in_use; quantizer_in_use = 0;')
m('m26-hash-no-reset', 'C17', 'src/decoder/raster_handle.cc', '    raster->reset_cache();\n', '')
m('m27-pool-nolock', 'C17', 'src/decoder/raster_handle.cc', '''    unique_lock<mutex> lock { mutex_ };

    assert( raster );''', '''    assert( raster );''')
m('m28-poll-timeout', 'C02', S, 'poller.poll( pacer.ms_until_due() )', 'poller.poll( pacer.empty() ? -1 : pacer.ms_until_due() + 50 )')
m('m29-at-assumed', 'C02', S, '               *it != receiver_assumed_state.get() ) {', '               true ) {')
m('m30-no-count-first', 'C14', 'src/util/ivf_writer.cc', '''  /* append the frame header to the file */
''', '''  memcpy_le32( mutable_header_ptr + 24, frame_count_ + 1 );
''')
m('m31-partial-frame-write', 'C13', 'src/util/file_descriptor.hh', '    while ( amount_left_to_write.size() > 0 ) {', '    if ( amount_left_to_write.size() > 0 ) {')
m('m32-write-all', 'C13', 'src/util/file_descriptor.hh', 'while ( write_all and (it != buffer.end()) );', 'while ( write_all and (it < buffer.begin() + buffer.size() / 2 ) );')
m('m33-segm-hash', 'C15', 'src/decoder/decoder.cc', 'boost::hash_combine( hash_val, segmentation.get().hash() );', 'boost::hash_combine( hash_val, segmentation.initialized() );')
m('m34-hash-check', 'C15', 'src/frontend/decode-bundle.cc', 'if ( not player->current_decoder().minihash_match( ivf.expected_decoder_minihash() ) ) {', 'if ( argc == 1 and not player->current_decoder().minihash_match( ivf.expected_decoder_minihash() ) ) {')
m('m35-golden-hash', 'C15', 'src/decoder/decoder.cc', 'references_.golden.hash(), references_.alternative.hash() );', 'references_.golden.hash(), references_.golden.hash() );')
m('m36-last-frame', 'C12', 'src/encoder/reencode.cc', '  if ( last_frame ) {', '  if ( last_frame and not of_header.refresh_last ) {')
m('m37-no-entry-hash', 'C12', 'src/util/ivf_writer.cc', '  memcpy_le32( mutable_header_ptr + 28, minihash ); /* ExCamera invention */', '  memcpy_le32( mutable_header_ptr + 28, minihash & 0xffff ); /* ExCamera invention */')
m('m38-entropy', 'C12', 'src/encoder/reencode.cc', '  if_header.refresh_entropy_probs    = of_header.refresh_entropy_probs;', '')
m('m39-extra-start', 'C12', 'src/encoder/reencode.cc', 'unsigned int start_frame_index = ( extra_frame_chunk ? 1 : 0 );', 'unsigned int start_frame_index = ( extra_frame_chunk and original_rasters.size() > 2 ? 1 : 0 );')
m('m40-ivf-len', 'C16', 'src/util/ivf.cc', 'uint64_t position = supported_header_len;', 'uint32_t position = supported_header_len;')
m('m41-chunk-bound', 'C16', 'src/util/chunk.hh', None, None)
m('m42-y4m-zero', 'C16', 'src/input/yuv4mpeg.cc', 'if ( header_.width == 0 or header_.height == 0 ) {', 'if ( header_.width == 0 ) {')
m('m43-drift', 'C18', 'src/salsify/fake-webcam.cc', 'next_frame_is_due += interval_between_frames;', 'next_frame_is_due = std::max( next_frame_is_due, chrono::steady_clock::now() - interval_between_frames ) + interval_between_frames;')
m('m44-ms', 'C18', 'src/salsify/fake-webcam.cc', 'chrono::microseconds( int( 1.0e6 / frames_per_second ) )', 'chrono::milliseconds( int( 1.0e3 / frames_per_second ) )')
m('m45-eof', 'C18', 'src/util/file_descriptor.hh', '      if ( eof() ) {\n        throw', '      if ( eof() and ret.empty() ) {\n        throw')
m('m46-system-clock', 'C18', 'src/salsify/fake-webcam.cc', 'chrono::steady_clock::now()', 'chrono::system_clock::now()')
m('m47-frag-dup', 'C04', P, None, None)
m('m48-header16', 'C04', P, 'const uint32_t network_order = htole32( n );', 'const uint32_t network_order = htole32( n & 0xffffff ) | ( n & 0xff000000 ) * ( n < 0xf0000000 );')
m('m49-rt-pool', 'C09', 'src/decoder/raster_handle.cc', 'ret = dequeue( unused_rasters_ );', 'ret = move( unused_rasters_.front() ); if ( unused_rasters_.size() > 1 ) unused_rasters_.pop(); else { unused_rasters_.pop(); }')
m('m50-grace-neg', 'C06', R, 'timestamp_us - last_update_ - grace', 'timestamp_us - last_update_')

D = 'src/decoder/'
m('m51-mv-flip', 'C19', D+'macroblock.cc', 'if ( mb.get()->header().motion_vectors_flipped_ != motion_vectors_flipped_ ) {', 'if ( motion_vectors_flipped_ ) {')
m('m52-tie', 'C19', D+'macroblock.cc', 'if ( scores_.at( 1 ) >= scores_.at( 0 ) ) {', 'if ( scores_.at( 1 ) > scores_.at( 0 ) ) {')
m('m53-sharp', 'C19', D+'loopfilter.cc', 'params.sharpness_level > 4 ? 2 : 1', 'params.sharpness_level >= 4 ? 2 : 1')
m('m54-hev', 'C19', D+'loopfilter.cc', 'simple_.filter_level() >= 20 and', 'simple_.filter_level() > 20 and')
m('m55-copy-order', 'C19', D+'frame.cc', 'references.alternative = references.golden;', 'references.alternative = header_.copy_buffer_to_golden.get_or( 0 ) == 2 ? references.alternative : references.golden;')
m('m56-uvdc', 'C19', D+'quantization.cc', 'if ( uv_dc > 132 ) uv_dc = 132;', 'if ( uv_dc > 134 ) uv_dc = 132;')
m('m57-y2ac', 'C19', D+'quantization.cc', 'if ( y2_ac < 8 ) y2_ac = 8;', 'if ( y2_ac < 6 ) y2_ac = 8;')
m('m58-entropy', 'C19', D+'decoder_state.hh', 'frame_probability_tables.update( myframe.header() );\n  if ( myframe.header().refresh_entropy_probs ) {', 'frame_probability_tables.update( myframe.header() );\n  if ( myframe.header().refresh_entropy_probs or not uncompressed_chunk.show_frame() ) {')
m('m59-clamp-right', 'C19', D+'macroblock.cc', '(((c.width - 1 - c.column) * 16) << 3) + 128', '(((c.width - 1 - c.column) * 16) << 3) + 120')
m('m60-longmv', 'C19', D+'macroblock.cc', 'if ( !(x & 0xFFF0) or', 'if ( !(x & 0xFFF8) or')
m('m61-zerolf', 'C19', D+'loopfilter.cc', '} else if ( macroblock_y_mode == ZEROMV ) {', '} else if ( macroblock_y_mode == ZEROMV and macroblock_reference_frame != ALTREF_FRAME ) {')
m('m62-segdata', 'C19', D+'decoder_state.hh', 'segment_filter_adjustments.at( i ) = feature_data.loop_filter_update.at( i ).get_or( 0 );', 'segment_filter_adjustments.at( i ) = feature_data.loop_filter_update.at( i ).get_or( segment_filter_adjustments.at( i ) );')
m('m63-chroma-round', 'C19', D+'macroblock.cc', 'y >= 0 ?  (y + 4) >> 3 : -((-y + 4) >> 3) );', '(y + 4) >> 3 );')
m('m64-segclear', 'C19', D+'decoder_state.hh', '  } else {\n    segmentation.clear();', '  } else if ( uncompressed_chunk.show_frame() ) {\n    segmentation.clear();')
m('m65-splitscore', 'C19', D+'macroblock.cc', 'splitmv_score_ += score;', 'splitmv_score_ = score;')
m('m66-altsign', 'C19', D+'macroblock.cc', 'or ( (reference() == ALTREF_FRAME) and (frame_header.sign_bias_alternate) )', 'or ( (reference() == ALTREF_FRAME) and (frame_header.sign_bias_alternate) and not frame_header.sign_bias_golden )')
m('m67-refuse-simple', 'C19', D+'frame_header.hh', """    mv_prob_update( data )
  {
    if ( filter_type ) {""", """    mv_prob_update( data )
  {
    if ( filter_type and loop_filter_level > 40 ) {""")
m('m68-upscale', 'C19', D+'uncompressed_chunk.cc', 'throw Unsupported( "VP8 upscaling not supported" );', ';')
m('m69-static-rd', 'C17', 'src/encoder/encoder.hh', '  uint32_t RATE_MULTIPLIER { 300 };\n  uint32_t DISTORTION_MULTIPLIER { 1 };', '  uint32_t & RATE_MULTIPLIER { rd_m() };\n  uint32_t DISTORTION_MULTIPLIER { 1 };\n  static uint32_t & rd_m() { static uint32_t x = 300; return x; }')
R_ = 'src/salsify/salsify-receiver.cc'
m('m70-push-nolock', 'C09', R_, '        lock_guard<mutex> lock( mtx );\n', '')
m('m71-draw-unlocked', 'C09', R_, '      display.draw( display_queue.front() );\n      display_queue.pop();', '      RasterHandle r = display_queue.front(); lock.unlock();\n      display.draw( r );\n      display_queue.pop(); lock.lock();')
m('m72-pool-get-nolock', 'C17', 'src/decoder/raster_handle.cc', '    unique_lock<mutex> lock { mutex_ };\n', '')

E_, F_ = 'src/encoder/', 'src/frontend/'
m('m73-segm-serialize', 'C15', D+'decoder.cc', '    odata.put(segment_filter_adjustments.at(i));', '    odata.put((int8_t) (segment_filter_adjustments.at(i) & 63));')
m('m74-lfadj-serialize', 'C15', D+'decoder.cc', '    loopfilter_mode_adjustments.at(i) = idata.get<int8_t>();', '    loopfilter_mode_adjustments.at(i) = idata.get<int8_t>() & 0x3f;')
m('m75-map-eq', 'C15', D+'decoder.cc', '    and map == other.map;', ';')
m('m76-split-pred', 'C12', E_+'reencode.cc', 'block.set_prediction_mode( original_fmb.Y().at( column, row ).prediction_mode() );', 'if ( row or column ) block.set_prediction_mode( original_fmb.Y().at( column, row ).prediction_mode() ); else block.set_prediction_mode( NEW4X4 );')
m('m77-entropy-kept', 'C12', E_+'encode_inter.cc', '  if ( frame.header().refresh_entropy_probs ) {\n    decoder_state_', '  {\n    decoder_state_')
m('m78-lf-cleared', 'C12', E_+'encode_inter.cc', '      decoder_state_.filter_adjustments.get().update( frame.header() );', '      decoder_state_.filter_adjustments.initialize( frame.header() );')
m('m79-alt-sign', 'C12', E_+'reencode.cc', '  if_header.sign_bias_alternate      = of_header.sign_bias_alternate;\n', '')
m('m80-golden-copy', 'C12', E_+'reencode.cc', '    if_header.copy_buffer_to_golden    = of_header.copy_buffer_to_golden;\n', '')
m('m81-longmv-bit3', 'C20', E_+'serializer.cc', 'if ( x & 0xfff0 ) {', 'if ( x > 0x10 ) {')
m('m82-mv-sign', 'C20', E_+'serializer.cc', '  if ( x ) {\n    encode( encoder, num_to_encode < 0', '  if ( num ) {\n    encode( encoder, num_to_encode < 0')
m('m83-left-above', 'C20', E_+'serializer.cc', 'submv_ref_index = 2;\n  } else if ( left_is_zero ) {\n    submv_ref_index = 1;', 'submv_ref_index = 1;\n  } else if ( left_is_zero ) {\n    submv_ref_index = 2;')
m('m84-signed-width', 'C20', E_+'serializer.cc', '  encode( encoder, header.uv_dc );\n  encode( encoder, header.uv_ac );', '  encode( encoder, header.uv_ac );\n  encode( encoder, header.uv_dc );')
m('m85-clear-copies', 'C20', F_+'xc-terminate-chunk.cc', '          frame.mutable_header().copy_buffer_to_alternate.clear();\n', '')
m('m86-last-kept', 'C20', F_+'xc-terminate-chunk.cc', '          frame.mutable_header().refresh_last = true;\n', '')
m('m87-show', 'C20', E_+'serializer.cc', 'return make_frame( false,\n                     show_,', 'return make_frame( false,\n                     true,')
m('m88-merge', 'C20', F_+'xc-merge.cc', 'for ( size_t i = 0; i < ivf2.frame_count(); i++ ) {', 'for ( size_t i = 0; i + 1 < ivf2.frame_count() or i < 1; i++ ) {')
m('m89-residue-tables', 'C20', F_+'xc-zero-out-residues.cc', 'auto old_prob_tables = ', 'const auto & old_prob_tables = ')
m('m90-seg-probs', 'C20', E_+'serializer.cc', 'encode( encoder, segment_id_update_, mb_segment_tree_probs );', 'encode( encoder, segment_id_update_.initialized() and segment_id_update_.get() > 3 ? Optional<Tree<uint8_t, num_segments, segment_id_tree>>() : segment_id_update_, mb_segment_tree_probs );')
m('m91-color-space', 'C20', E_+'serializer.cc', 'encode( encoder, header.color_space );\n  encode( encoder, header.clamping_type );', 'encode( encoder, header.clamping_type );\n  encode( encoder, header.clamping_type );')
m('m92-abs-tag', 'C15', D+'decoder.cc', '  bool abs = data_type == EncoderSerDesTag::SEGM_ABS;', '  bool abs = data_type == EncoderSerDesTag::SEGM_REL;')
m('m93-prob-order', 'C15', D+'decoder.cc', None, None)
m('m94-bitexact-cat6', 'C20', E_+'serializer.cc', 'uint16_t increment = value - base_value_;', 'uint16_t increment = min<uint16_t>( value - base_value_, 2000 );')

EN, EI = E_+'encoder.cc', E_+'encode_inter.cc'
m('m95-size-step', 'C21', EN, '      y_ac_qi_max = quant_indices.y_ac_qi - 1;', '      y_ac_qi_max = max( y_ac_qi_min, quant_indices.y_ac_qi - 2 );')
m('m96-ssim-before-filter', 'C21', EI, 'compute_ssim ? immutable_raster.get().quality( raster ) : 0.0', 'compute_ssim ? encode_stats_.ssim.get() + 0.01 : 0.0')
m('m97-golden-ssim', 'C21', EI, 'compute_ssim ? immutable_raster.get().quality( raster ) : 0.0', 'compute_ssim ? references_.last.get().quality( raster ) : 0.0')
m('m98-radius', 'C21', EN, 'last_y_ac_qi_.get() + radius', 'last_y_ac_qi_.get() + radius / 2')
m('m99-last-size', 'C21', F_+'xc-enc.cc', '  static size_t last_size = numeric_limits<size_t>::max();', '  size_t last_size = numeric_limits<size_t>::max();')
m('n01-not-found', 'C21', EN, 'size_t best_y_ac_qi = 0;', 'size_t best_y_ac_qi = 10;')
m('n02-min-eq', 'C21', EN, 'if ( estimated_size <= target_size or', 'if ( estimated_size < target_size or')
m('n03-sample-once', 'C21', E_+'size_estimation.cc', '  return size * WIDTH_SAMPLE_DIMENSION_FACTOR * HEIGHT_SAMPLE_DIMENSION_FACTOR;', '  return size * WIDTH_SAMPLE_DIMENSION_FACTOR;')
m('n04-y2dc', 'C21', E_+'../decoder/quantization.cc', None, None)
m('n05-state-kept', 'C21', EI, '  if ( not update_state ) {\n    decoder_state_ = decoder_state_copy;\n  }', '')
m('n06-refs', 'C21', EN, '  if ( encode_quality_ == REALTIME_QUALITY ) {\n    loop_filter_level_', '  {\n    loop_filter_level_')
m('n07-chroma-plane', 'C21', E_+'../util/raster.cc', 'return ssim( Y(), other.Y() );', 'return ssim( U(), other.U() );')
m('n08-clamped-q', 'C21', EN, '  quant_indices.y_ac_qi = y_ac_qi;\n', '  quant_indices.y_ac_qi = max<uint8_t>( y_ac_qi, 1 );\n')
m('n09-two-pass-key', 'C21', EN, 'if ( not has_state_ ) {\n    has_state_ = true;\n    return write_frame( encode_with_quantizer_search<KeyFrame>', 'if ( not has_state_ ) {\n    return write_frame( encode_with_quantizer_search<KeyFrame>')

# reports
XD, XF, XS, CS, XI = F_+'xc-dissect.cc', F_+'xc-framesize.cc', F_+'xc-ssim.cc', F_+'comp-states.cc', F_+'xc-diff.cc'
m('p01-mv-swapped', 'C22', XD, 'macroblock.base_motion_vector().x()', 'macroblock.base_motion_vector().y()')
m('p02-flag', 'C22', XD, 'if ( header.prob_skip_false.initialized() )', 'if ( header.prob_skip_false.get_or( 0 ) )')
m('p03-reset', 'C22', XD, 'decoder_state = DecoderState{ width, height }; // reset the decoder state for the keyframe', '')
m('p04-skip-frames', 'C22', XD, '    UncompressedChunk uncompressed_chunk {', '    if ( target_frame_number != SIZE_MAX and frame_number > target_frame_number ) { break; }\n    if ( frame_number + 8 < target_frame_number ) { continue; }\n    UncompressedChunk uncompressed_chunk {')
m('p05-state-ignored', 'C22', XD, 'DecoderState decoder_state = decoder.get_state();', 'DecoderState decoder_state { width, height };')
m('p06-bmode-names', 'C22', XD, '"LEFT4X4", "ABOVE4X4"', '"ABOVE4X4", "LEFT4X4"')
m('p07-ref-names', 'C22', XD, '"GOLDEN_FRAME", "ALTREF_FRAME"', '"ALTREF_FRAME", "GOLDEN_FRAME"')
m('p08-total', 'C22', XF, 'ivf.size()', 'ivf.size() + 0 * ivf.frame_count() - ( ivf.frame_count() > 9 )')
m('p09-planes', 'C22', XS, 'double v_ssim = ssim( raster[ 0 ].get().get().V(), raster[ 1 ].get().get().V() );', 'double v_ssim = ssim( raster[ 0 ].get().get().U(), raster[ 1 ].get().get().V() );')
m('p10-shorter', 'C22', XS, 'while ( raster[ 0 ].initialized() and raster[ 1 ].initialized() )', 'while ( raster[ 0 ].initialized() )')
m('p11-size-bits', 'C22', CS, 'unsigned diffs = 8 * abs((int) (file1.size() - file2.size()));', 'unsigned diffs = 0;')
m('p12-chroma-v', 'C22', CS, 'diff2 += abs(r1.last.get().V().at(col, row) - r2.last.get().V().at(col, row));', 'diff2 += abs(r1.last.get().V().at(col, row) - r2.last.get().U().at(col, row));')
m('p13-denominator', 'C22', CS, 'width * height / 2', 'width * height / 4')
m('p14-status', 'C22', CS, '  return EXIT_FAILURE;\n}', '  return EXIT_SUCCESS;\n}')
m('p15-ssim-stride', 'C22', 'src/util/ssim.cc', None, None)
m('p16-y2-hidden', 'C22', XD, 'if ( coefficients and macroblock.Y2().coded() )', 'if ( coefficients and macroblock.Y2().coded() and not macroblock.inter_coded() )')
m('p17-mv-eq', 'C22', 'src/decoder/probability_tables.cc', '    and motion_vector_probs == other.motion_vector_probs;', ';')
m('p18-seg-eq', 'C22', None, None, None)

def main():
    ids = sys.argv[1:]
    for i, prop, f, old, new in L:
        if old is None or (ids and not any(i.startswith(x) for x in ids)):
            continue
        shutil.rmtree(M, ignore_errors=True); os.makedirs(M)
        subprocess.run(['cp', '-a', os.environ.get('MUTATE', '/repo') + '/src', M], check=True)
        p = os.path.join(M, f); s = open(p).read()
        if s.count(old) < 1:
            print(i, prop, 'DOES NOT APPLY'); continue
        open(p, 'w').write(s.replace(old, new, 1))
        t = time.time()
        r = subprocess.run([sys.executable, V + '/check.py', prop, '--tier', 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=M))
        o = r.stdout.decode(errors='replace').strip().split('\n')
        print('%-24s %s %s %.0fs %s' % (i, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc %d' % r.returncode), time.time() - t, (o[-3] if len(o) > 2 else o[0])[:170]), flush=True)
if __name__ == '__main__':
    main()
