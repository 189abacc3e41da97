// System V semaphores and shared memory as the calls under --wrap see them:
// SEM_UNDO, per-process attachments, failing and interrupted calls.
#pragma once
#include "pbt.h"
#include <sys/types.h>

namespace ipc {
void reset();                                   // forget everything (unmaps)
void set_proc(int p);                           // who calls, outside of fibers
void die(int p);                                // the process ends: undo its semaphore changes, drop its mappings
int attachments();                              // mappings alive
int attachments(int p);
int nsegs(); int nsems();
int semval(int id, int n);
bool touched(int id);                           // its first value was set or it was operated on
long undo(int p, int id, int n);
std::string segment(int id);                    // its bytes
size_t segsize(int id);
int seg_by_key(key_t k);
void *mapping(int p, int id);                   // where process p sees it
bool all_sem_idle(int expect0, int expect1);    // every set's first two values

enum Call { C_FTOK, C_SEMGET, C_SEMCTL, C_SEMOP, C_SHMGET, C_SHMAT, C_SHMDT, C_SHMCTL, C_N };
extern const char *call_name[];
void fail_nth(int call, int n, int err);        // the n-th (from 1) such call from now on fails
bool fault_hit();
extern int64_t waited_us;                        // limit of the last wait with a limit, -1: none since it was set to -1
extern size_t shm_limit;                        // larger requests are refused
}
// all but semtimedop's timeout is as in the manual; blocked calls use fib::block
