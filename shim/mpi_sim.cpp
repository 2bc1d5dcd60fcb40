#include "mpi.h"
#include "mpi_sim.hpp"

#include <chrono>
#include <condition_variable>
#include <cstring>
#include <exception>
#include <mutex>
#include <stdexcept>
#include <thread>

namespace mpisim {
namespace {
struct World {
	int n = 1;
	std::mutex m;
	std::condition_variable cv;
	int waiting = 0, done = 0;
	long generation = 0;
	bool broken = false;
	std::vector<const void*> board;
};
thread_local int t_rank = 0;
thread_local World* t_world = nullptr;
int g_lagging = -1;
}

void setLagging(int r) { g_lagging = r; }
bool lagPoint()
{
	World* w = t_world;
	if (!w || g_lagging < 0) { return false; }
	if (t_rank != g_lagging) { std::this_thread::sleep_for(std::chrono::milliseconds(25)); return false; }
	std::unique_lock<std::mutex> lk(w->m);
	w->cv.wait(lk, [&] { return w->broken || w->waiting + w->done == w->n - 1; });
	return true;
}

int rank() { return t_world ? t_rank : 0; }
int size() { return t_world ? t_world->n : 1; }

void barrier()
{
	World* w = t_world;
	if (!w) { return; }
	std::unique_lock<std::mutex> lk(w->m);
	if (w->broken) { throw std::runtime_error("mpisim: another rank failed"); }
	const long gen = w->generation;
	if (++w->waiting == w->n) {
		w->waiting = 0;
		w->generation++;
		w->cv.notify_all();
		return;
	}
	if (w->waiting + w->done == w->n) {
		w->broken = true;
		w->cv.notify_all();
		throw std::runtime_error("mpisim: some ranks wait for others that have finished");
	}
	if (g_lagging >= 0) { w->cv.notify_all(); }
	w->cv.wait(lk, [&] { return w->generation != gen || w->broken; });
	if (w->generation == gen && w->broken) {
		throw std::runtime_error("mpisim: another rank failed");
	}
}

std::vector<const void*> publish(const void* p)
{
	World* w = t_world;
	if (!w) { return { p }; }
	{
		std::lock_guard<std::mutex> lk(w->m);
		w->board[t_rank] = p;
	}
	barrier();
	std::lock_guard<std::mutex> lk(w->m);
	return w->board;
}

void release() { barrier(); }

void runWorld(int n, const std::function<void(int)>& body)
{
	World w;
	w.n = n;
	w.board.assign(n, nullptr);
	std::vector<std::thread> ts;
	std::exception_ptr err;
	std::mutex em;
	for (int r = 0; r < n; r++) {
		ts.emplace_back([&, r] {
			t_rank = r;
			t_world = &w;
			try {
				body(r);
			}
			catch (...) {
				{
					std::lock_guard<std::mutex> lk(em);
					if (!err) { err = std::current_exception(); }
				}
				std::lock_guard<std::mutex> lk(w.m);
				w.broken = true;
				w.cv.notify_all();
			}
			{
				std::lock_guard<std::mutex> lk(w.m);
				w.done++;
				if (w.waiting > 0 && w.waiting + w.done == w.n) { w.broken = true; }
				w.cv.notify_all();
			}
			t_world = nullptr;
		});
	}
	for (auto& t : ts) { t.join(); }
	if (err) { std::rethrow_exception(err); }
}
}

namespace {
size_t width(MPI_Datatype t)
{
	switch (t) {
	case MPI_INT: return sizeof(int);
	case MPI_DOUBLE: return sizeof(double);
	case MPI_CHAR: return 1;
	default: return 8;
	}
}
template <class T>
void reduceT(const std::vector<const void*>& src, T* out, int n, MPI_Op op)
{
	for (int i = 0; i < n; i++) {
		T v = static_cast<const T*>(src[0])[i];
		for (size_t r = 1; r < src.size(); r++) {
			const T x = static_cast<const T*>(src[r])[i];
			if (op == MPI_SUM) { v += x; }
			else if (op == MPI_MIN) { v = x < v ? x : v; }
			else { v = x > v ? x : v; }
		}
		out[i] = v;
	}
}
bool alone(MPI_Comm c) { return c == MPI_COMM_SELF || mpisim::size() == 1; }
}

int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_SELF ? 0 : mpisim::rank(); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = c == MPI_COMM_SELF ? 1 : mpisim::size(); return 0; }
int MPI_Comm_split_type(MPI_Comm c, int, int, MPI_Info, MPI_Comm* o) { *o = c; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Barrier(MPI_Comm c) { if (!alone(c)) { mpisim::barrier(); } return 0; }

int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
	std::vector<char> copy(n * width(t));
	std::memcpy(copy.data(), s == MPI_IN_PLACE ? r : s, copy.size());
	if (alone(c)) { std::memcpy(r, copy.data(), copy.size()); return 0; }
	auto all = mpisim::publish(copy.data());
	if (t == MPI_INT) { reduceT<int>(all, static_cast<int*>(r), n, op); }
	else if (t == MPI_DOUBLE) { reduceT<double>(all, static_cast<double*>(r), n, op); }
	else { reduceT<long long>(all, static_cast<long long*>(r), n, op); }
	mpisim::release();
	return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
	std::vector<char> tmp(n * width(t));
	MPI_Allreduce(s == MPI_IN_PLACE ? r : s, tmp.data(), n, t, op, c);
	if (alone(c) || mpisim::rank() == root) { std::memcpy(r, tmp.data(), tmp.size()); }
	return 0;
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, int root, MPI_Comm c)
{
	const size_t b = n * width(t);
	if (alone(c)) { std::memcpy(r, s, b); return 0; }
	auto all = mpisim::publish(s);
	if (mpisim::rank() == root) {
		for (size_t i = 0; i < all.size(); i++) { std::memcpy(static_cast<char*>(r) + i * b, all[i], b); }
	}
	mpisim::release();
	return 0;
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, MPI_Comm c)
{
	const size_t b = n * width(t);
	if (alone(c)) { std::memcpy(r, s, b); return 0; }
	auto all = mpisim::publish(s);
	for (size_t i = 0; i < all.size(); i++) { std::memcpy(static_cast<char*>(r) + i * b, all[i], b); }
	mpisim::release();
	return 0;
}
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c)
{
	if (alone(c)) { return 0; }
	auto all = mpisim::publish(p);
	std::vector<char> tmp(n * width(t));
	std::memcpy(tmp.data(), all[root], tmp.size());
	mpisim::release();
	std::memcpy(p, tmp.data(), tmp.size());
	return 0;
}
double MPI_Wtime()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
int MPI_Abort(MPI_Comm, int) { throw std::runtime_error("MPI_Abort"); }
