#pragma once
#include "media.hh"
struct DataPkt { u32 conn, source, target, frame, frag, frags, tsl; Bytes payload; bool ok = false; };
DataPkt data_parse( const Bytes & b );
struct Ack { u32 conn = 0, frame = 0, frag = 0, avg = 0, cur = 0; std::vector<u32> list; bool ok = false; };
Ack ack_parse( const Bytes & b );
Bytes ack_make( const Ack & a );
void scenario_salsify();
void finish_salsify();
