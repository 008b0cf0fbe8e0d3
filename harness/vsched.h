// Cooperative deterministic scheduler and system-call interposition.
//
// All threads of the process are managed: exactly one runs at a time and the
// next one is picked at synchronisation operations, socket calls and (when the
// library is compiled with -fsanitize-coverage=trace-pc) at random basic
// blocks.  Time is virtual: waits time out only when the driver advances it.
#ifndef VSCHED_H
#define VSCHED_H
#include <functional>
#include <string>
#include <utility>
#include <vector>
#include <cstdint>
#include <poll.h>
#include <sys/socket.h>

namespace vs {

struct Config {
  uint64_t seed = 1;
  int mode = 0;            // 0 run-until-block, 1 random, 2 priorities (PCT), 3 run-until-block with switches at `at`
  int switch_pct = 50;     // mode 1: chance of a switch at a yield point
  int bb_mean = 0;         // mean number of basic blocks between preemptions; 0 = off
  int depth = 3;           // mode 2: number of priority change points
  int horizon = 200;       // mode 2: assumed length of a run
  int spurious_pct = 0;    // chance of a spurious condition wake-up per decision
  long settle_us = 60;     // real time given to the kernel before quiescence is concluded
  long max_decisions = 400000;
  std::vector<std::pair<long, int>> at; // mode 3: (number of the switching opportunity, which other thread)
};

void start(const Config&);          // the calling thread becomes the driver
void reseed(const Config&);
int  spawn(const std::function<void()>&); // managed actor thread
bool actor_done(int id);
int  lib_threads();                 // live threads the library created
bool quiet();                       // driver: let everything run until nothing can; false = never settles
void steps(long n);                 // driver: let others take n decisions
void advance(long ms);              // driver: virtual time
long now_ms();
long opportunities();               // points at which a switch was possible since the last reseed
void yield();
void gate_wait(const std::string& key);  // block the calling thread until opened
void gate_open(const std::string& key);
void set_eintr(int n);              // next n blocking waits of the library are interrupted
std::string describe();             // thread states, for diagnostics

// descriptor bookkeeping
enum Owner { NONE = 0, LIB = 1, HARNESS = 2 };
void own(int fd);                   // fd belongs to the harness
void disown(int fd);
int  lib_fds();                     // open descriptors that are not the harness's
std::string lib_fd_list();
int  last_listen_port();
std::string last_listen_ip();
int  listening();                   // number of listening sockets of the library
void conn_limit(int port, long cap, long budget); // write limits for library sockets connected to `port`
void conn_budget_add(int port, long n);
void hang_connect(bool on);         // connections are not established before they are let through
void lib_limit(long cap);           // write limit for every library socket created by connect()
void shrink_buf(int bytes);
long accepts();
void fail_accept(int n);

// real system calls
namespace real {
int poll(struct pollfd*, nfds_t, int);
int close(int);
ssize_t send(int, const void*, size_t, int);
ssize_t recv(int, void*, size_t, int);
int accept(int, struct sockaddr*, socklen_t*);
int connect(int, const struct sockaddr*, socklen_t);
int socket(int, int, int);
int bind(int, const struct sockaddr*, socklen_t);
int listen(int, int);
int shutdown(int, int);
ssize_t write(int, const void*, size_t);
int usleep(long us);
}

// callbacks supplied by the harness
void on_event(const std::string& line);
extern bool (*resolver)(const std::string& name, std::string& ip); // true: answered (no ip: unknown host)
}
#endif
