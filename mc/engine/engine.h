// Interface between the model-checking engine (engine.c) and the harness (Rust).
#pragma once
#include <stdint.h>
#define MC_MAXCH 60000
#define MC_MSG 8192
#define MC_LOG (256 * 1024)

enum { OUT_NONE = 0, OUT_OK = 1, OUT_FAIL = 2, OUT_DEADLOCK = 3, OUT_HORIZON = 4, OUT_DIVERGED = 5, OUT_PANIC = 6, OUT_ENGINE = 7 };
enum { CH_PREEMPT = 0, CH_FREE = 1, CH_DATA = 2, CH_FAULT = 3 };

typedef struct {
    uint8_t n;       // number of alternatives
    uint8_t chosen;  // the one taken
    uint8_t nsched;  // for CH_PREEMPT/CH_FREE: alternatives [0,nsched) are threads, the rest are faults
    uint8_t kind;
} McChoice;

typedef struct {
    // ---- configuration (written by the explorer)
    uint32_t prefix_len;
    uint32_t horizon;      // scheduling points per execution
    uint32_t fair_k;       // consecutive points one thread may take while others are enabled
    uint32_t atom_mode;    // 0: atomics are not points, 1: all, 2: atomics at program points seen shared
    uint32_t free_switch_cost; // 0: alternatives when the running thread blocks are free; 1: they cost one preemption
    uint32_t verbose;
    uint32_t sndbuf;       // != 0: replaces every SO_SNDBUF / SO_RCVBUF value asked for
    uint32_t nosched;      // 1: no schedule alternatives at all (default schedule only)
    uint32_t proc_sched_mask; // reserved
    McChoice prefix[MC_MAXCH];
    // ---- result
    uint32_t nch;
    uint32_t outcome;
    uint32_t steps;
    uint32_t watchdog;     // (result) set when the real-time watchdog ended the run
    uint32_t preemptions, faults;
    uint32_t nontrivial;
    uint32_t newpc;
    uint64_t obs;
    uint32_t loglen;
    uint32_t atompoints;
    uint64_t counters[16];
    McChoice ch[MC_MAXCH];
    uint64_t chst[MC_MAXCH]; // fingerprint of the state in which each choice was made
    char sig[256];
    char msg[MC_MSG];
    char log[MC_LOG];
} McSlot;

// program points of atomic operations, shared by all executions of one exploration
#define MC_PCTAB 4096
typedef struct {
    uint64_t pc[MC_PCTAB];
    uint8_t learned[MC_PCTAB];  // seen on an address touched by two threads
    uint8_t active[MC_PCTAB];   // frozen set in force
} McPcTab;
