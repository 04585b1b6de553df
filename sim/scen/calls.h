// A generic workload: clients call servers through simple channels while a nemesis disturbs them.
#pragma once
#include "common.h"
namespace sc {
struct Mix {
    int clients, servers, callers, per_caller; CallCfg call; EnvCfg env;
    bool nem_reset, nem_partition, nem_crash, nem_stop, nem_pause, nem_skew; ns_t nem_gap_lo, nem_gap_hi; ns_t think_max;
    Mix() : clients(2), servers(2), callers(4), per_caller(8), nem_reset(true), nem_partition(true), nem_crash(true), nem_stop(true), nem_pause(true), nem_skew(true), nem_gap_lo(MS), nem_gap_hi(SEC), think_max(100 * MS) {}
};
struct CallsBed {
    Mix m; std::vector<Server*> servers; std::vector<RpcClient*> clients; std::vector<std::vector<RpcChannel*> > chans;   // [client][server]
    bool crashed_any; bool stop_nemesis; std::vector<int> callers; int nemesis;
    explicit CallsBed(const Mix& mix);
    RpcClientOptions copt; RpcServerOptions sopt;
    void start();              // servers, clients, callers, nemesis
    void wait_callers();       // until every caller fiber is through
    void heal();               // faults off, all servers up
    void expect_recovery(ns_t limit);  // calls on the same channels succeed again
    void check_lost();         // no complete call outlived its connection
    void finish(ns_t slack);   // all calls complete and are checked
    void destroy();            // clients, servers; checks
    void caller(int client, int n);
    void nem();
    static int cnode(int i) { return 1 + i; }
    static int snode(int i) { return 11 + i; }
};
}
