// Simulated MPI worlds: every rank is a thread of this process.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace mpisim {
int rank();
int size();
// Runs body(rank) on `n` threads as an n-rank world; rethrows the first
// exception any rank raised (other ranks are released from their barriers).
void runWorld(int n, const std::function<void(int)>& body);
void barrier();
// Schedule control: the lagging rank stops at every lag point (reading a file) until all other
// ranks are blocked or finished; lagPoint() tells the caller that it was held back.
void setLagging(int rank);
bool lagPoint();
// Every rank publishes a pointer; returns the pointers of all ranks. Must be
// followed by release() once the data has been read.
std::vector<const void*> publish(const void* p);
void release();
}
