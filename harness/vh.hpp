// Exploration bookkeeping shared by all harnesses.
#pragma once

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <array>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace vh {

inline std::string num(double v)
{
	char b[40];
	std::snprintf(b, sizeof b, "%.17g", v);
	return b;
}
inline void cat(std::ostringstream&) {}
template <class T, class... R> void cat(std::ostringstream& o, const T& t, const R&... r)
{
	if constexpr (std::is_floating_point<T>::value) { o << num(t); }
	else { o << t; }
	cat(o, r...);
}
template <class... A> std::string str(const A&... a) { std::ostringstream o; cat(o, a...); return o.str(); }

class Explorer {
public:
	Explorer()
	{
		auto env = [](const char* k, const char* d) { const char* v = std::getenv(k); return std::string(v ? v : d); };
		result_ = env("VH_RESULT", "");
		shard_ = std::stoi(env("VH_SHARD", "0"));
		shards_ = std::stoi(env("VH_SHARDS", "1"));
		thorough_ = env("VH_TIER", "quick") == "thorough";
		hasOnly_ = std::getenv("VH_ONLY") != nullptr;
		only_ = env("VH_ONLY", "");
		repo_ = env("VH_REPO", "/repo");
		const std::string p = env("VH_PROGRESS", "");
		if (!p.empty()) {
			int fd = open(p.c_str(), O_RDWR);
			if (fd >= 0) { prog_ = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); close(fd); if (prog_ == MAP_FAILED) { prog_ = nullptr; } }
		}
		static char buf[1 << 16];
		(void)buf;
	}
	bool thorough() const { return thorough_; }
	const std::string& repo() const { return repo_; }
	bool replaying() const { return hasOnly_; }

	// Starts one explored behaviour; false when it belongs to another shard.
	bool begin(const std::string& key)
	{
		const long n = counter_++;
		if (hasOnly_ ? key != only_ : n % shards_ != shard_) { return false; }
		key_ = key;
		cases_++;
		failedHere_ = false;
		if (prog_) { std::snprintf(prog_, 4096, "%s", key.c_str()); }
		if (seen_.insert(key).second) { states_++; }
		if (samples_.size() < 4 || (cases_ % 997 == 0 && samples_.size() < 8)) { samples_.push_back(key); }
		return true;
	}
	// A state reached inside the current behaviour, identified by `sig`.
	void state(const std::string& sig) { if (seen_.insert(key_ + "|" + sig).second) { states_++; } }
	void step(long n = 1) { transitions_ += n; }
	void trace(long n = 1) { traces_ += n; }
	void note(const std::string& k, long n = 1) { notes_[k] += n; }
	void fail(const std::string& what)
	{
		if (failedHere_) { return; }
		failedHere_ = true;
		nfail_++;
		if (fails_.size() < 40) { fails_.push_back({ key_, what }); }
	}
	template <class... A> bool check(bool ok, const A&... a) { if (!ok) { fail(str(a...)); } return ok; }
	bool failed() const { return failedHere_; }
	const std::string& key() const { return key_; }

	// Runs body, turning an unexpected exception into a violation.
	void guarded(const std::function<void()>& body)
	{
		try { body(); }
		catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
		catch (...) { fail("unexpected non-standard exception"); }
	}

	int finish()
	{
		if (!result_.empty()) {
			std::ofstream o(result_);
			o << "{\"states\":" << states_ << ",\"transitions\":" << transitions_ << ",\"traces\":" << traces_ << ",\"cases\":" << cases_ << ",\"samples\":[";
			for (size_t i = 0; i < samples_.size(); i++) { o << (i ? "," : "") << esc(samples_[i]); }
			o << "],\"failures\":[";
			for (size_t i = 0; i < fails_.size(); i++) { o << (i ? "," : "") << "{\"case\":" << esc(fails_[i].first) << ",\"what\":" << esc(fails_[i].second) << "}"; }
			o << "],\"notes\":{";
			bool first = true;
			for (auto& n : notes_) { o << (first ? "" : ",") << esc(n.first) << ":" << n.second; first = false; }
			o << "}}";
		}
		for (auto& f : fails_) { std::cerr << "FAIL " << f.first << ": " << f.second << "\n"; }
		std::cerr << "states " << states_ << " transitions " << transitions_ << " traces " << traces_ << " failures " << nfail_ << "\n";
		std::cerr.flush();
		std::cout.flush();
		_exit(0);
	}

private:
	static std::string esc(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else { r += char(c); }
		}
		return r + "\"";
	}
	std::string result_, only_, repo_, key_;
	int shard_ = 0, shards_ = 1;
	bool thorough_ = false, hasOnly_ = false, failedHere_ = false;
	char* prog_ = nullptr;
	long counter_ = 0, cases_ = 0, states_ = 0, transitions_ = 0, traces_ = 0, nfail_ = 0;
	std::set<std::string> seen_;
	std::vector<std::string> samples_;
	std::vector<std::pair<std::string, std::string>> fails_;
	std::map<std::string, long> notes_;
};

inline bool close(double a, double b, double rtol, double atol = 0.0)
{
	if (std::isnan(a) || std::isnan(b)) { return false; }
	if (a == b) { return true; }
	return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}

// Silences std::cout while alive (the repository logs a lot).
// Stateless sink: ranks simulated as threads write to it at the same time.
struct NullBuf : std::streambuf {
	int overflow(int c) override { return c == EOF ? 0 : c; }
	std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Mute {
	NullBuf sink;
	std::streambuf* old;
	Mute() : old(std::cout.rdbuf(&sink)) {}
	~Mute() { std::cout.rdbuf(old); }
};

} // namespace vh
