#pragma once
#include "media.hh"
#include <cstdarg>
#include <string>
struct Abort {};
struct Opt {
  Bytes in; bool io = false; IoRates rates; u64 kill_sys = NEVER, kill_blk = NEVER; bool torn = false;
  std::function<void( Node *, PipeOut * )> setup;
};
struct Run {
  Node * node = nullptr; std::shared_ptr<PipeOut> pipe; std::string what;
  int status = -1; bool exited = false, died = false, killed = false; std::string why, err; Bytes out;
  bool ok() const { return exited && status == 0; }
};
struct Job { std::string prog; std::vector<std::string> args; Opt opt; };
std::vector<Run> group( const std::vector<Job> & jobs );
Run tool( const std::string & prog, const std::vector<std::string> & args, const Opt & o = Opt() );
void fail( const std::string & cls, const std::string & msg ); // reports and ends the run
std::string S( const char * f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
Run must( const std::string & prog, const std::vector<std::string> & args, const Opt & o = Opt() );
std::vector<Picture> vpx_pictures( const std::vector<Bytes> & frames, bool * ok = nullptr );
std::string tail( const std::string & s, size_t n = 160 );
bool same_pictures( const std::vector<Picture> & a, const std::vector<Picture> & b, std::string * where );
void put_file( const std::string & p, const Bytes & b );
void scenario_c12(); void scenario_c13(); void scenario_c14(); void scenario_c15(); void scenario_c16(); void scenario_c17_tools(); void scenario_c18();
