// A launcher run in a process of its own, and the files it leaves.
#pragma once
#include "hx.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

namespace lx {

enum { THREW = 70, MISUSE = 71 };

struct Outcome { int code = 0; bool crashed = false; std::string text; };

// Runs the body in a child process with its output kept in a file.
inline Outcome isolated(const std::function<int()>& body)
{
	const std::string log = "said.txt";
	std::cout.flush();
	const pid_t pid = fork();
	if (pid < 0) { throw std::runtime_error("fork"); }
	if (pid == 0) {
		int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), nul = open("/dev/null", O_RDONLY);
		dup2(nul, 0);
		dup2(fd, 1);
		dup2(fd, 2);
		int code = 0;
		try { code = body(); }
		catch (const mfem::ShimIndexError&) { code = MISUSE; }
		catch (...) { code = THREW; }
		std::cout.flush();
		std::cerr.flush();
		_exit(code);
	}
	int st = 0;
	if (waitpid(pid, &st, 0) != pid) { throw std::runtime_error("waitpid"); }
	Outcome o;
	o.crashed = !WIFEXITED(st);
	o.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
	o.text = hx::slurp(log);
	hx::fs::remove(log);
	return o;
}
inline Outcome launch(int (*entry)(int, char**), const std::vector<std::string>& args)
{
	return isolated([&] {
		std::vector<std::string> copy{ "launcher" };
		copy.insert(copy.end(), args.begin(), args.end());
		std::vector<char*> argv;
		for (auto& a : copy) { argv.push_back(a.data()); }
		argv.push_back(nullptr);
		return entry(int(copy.size()), argv.data());
	});
}

using Tree = std::map<std::string, std::string>;
inline Tree tree(const hx::fs::path& root)
{
	Tree t;
	if (!hx::fs::exists(root)) { return t; }
	for (auto& e : hx::fs::recursive_directory_iterator(root)) { if (e.is_regular_file()) { t[hx::fs::relative(e.path(), root).string()] = hx::slurp(e.path()); } }
	return t;
}
inline std::string differs(const Tree& a, const Tree& b)
{
	for (auto& f : b) { auto it = a.find(f.first); if (it == a.end()) { return "missing " + f.first; } if (it->second != f.second) { return "different contents in " + f.first; } }
	for (auto& f : a) { if (!b.count(f.first)) { return "unexpected " + f.first; } }
	return "";
}
// Every sequence of tokens of up to the given length.
inline void sequences(int tokens, int length, const std::function<void(const std::vector<int>&)>& f)
{
	std::vector<int> s;
	std::function<void()> rec = [&] {
		f(s);
		if (int(s.size()) == length) { return; }
		for (int t = 0; t < tokens; t++) { s.push_back(t); rec(); s.pop_back(); }
	};
	rec();
}

} // namespace lx
