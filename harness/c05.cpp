// C05: every history of value operations on two source collections (and a probe set)
// up to a bound, replayed on the real containers and on a model of plain value lists.
#include "vh.hpp"
#include "components/Sources.h"
#include "components/Probes.h"

using namespace maxwell;

// The excitations that can be added, with the model of what they evaluate to.
static std::unique_ptr<Source> make(int k)
{
	switch (k) {
	case 0: return std::make_unique<InitialField>(Gaussian(0.4, mfem::Vector({ 0.1, 0.0, 0.0 }), 3), E, mfem::Vector({ 0.0, 1.0, 0.0 }), mfem::Vector({ 0.2, 0.0, -0.1 }));
	case 1: return std::make_unique<TotalField>(Planewave(Gaussian(0.7, mfem::Vector({ -0.5 })), mfem::Vector({ 0.0, 0.0, 1.0 }), mfem::Vector({ 1.0, 0.0, 0.0 }), E));
	default: return std::make_unique<InitialField>(SinusoidalMode({ 1, 2 }), H, mfem::Vector({ 1.0, 0.0, 0.0 }), mfem::Vector({ 0.0, 0.0, 0.0 }));
	}
}
static std::vector<double> evalAll(const Source& s)
{
	std::vector<double> r;
	for (double t : { 0.0, 0.6 }) for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) { r.push_back(s.eval(mfem::Vector({ 0.35, 0.2, -0.4 }), t, FieldType(f), Direction(d))); }
	return r;
}
static std::vector<std::vector<double>> ref;

// Model: list of kinds; nullopt list = moved-from (only assignment and destruction allowed).
struct Model { std::vector<int> v; bool valid = true; };

static const char* OPS[] = { "addA0", "addA1", "addRefA2", "addB1", "A=B", "B=A", "A=copy(B)", "B=move(A)", "A=move(B)", "A=A", "swap", "killA", "cloneB", "A=move(copy(B))", "B=init" };
static const int NOPS = 15;

static bool enabled(int op, const Model m[2])
{
	const Model &A = m[0], &B = m[1];
	switch (op) {
	case 0: case 1: case 2: return A.valid && A.v.size() < 3;
	case 3: return B.valid && B.v.size() < 3;
	case 4: case 6: case 12: case 13: case 8: return B.valid;
	case 5: case 7: case 9: return A.valid;
	case 10: return A.valid && B.valid;
	}
	return true;
}
static void apply(int op, std::unique_ptr<Sources> s[2], Model m[2])
{
	auto &A = *s[0], &B = *s[1];
	switch (op) {
	case 0: A.add(make(0)); m[0].v.push_back(0); break;
	case 1: A.add(make(1)); m[0].v.push_back(1); break;
	case 2: { auto x = make(2); A.add(*x); m[0].v.push_back(2); break; }
	case 3: B.add(make(1)); m[1].v.push_back(1); break;
	case 4: A = B; m[0] = m[1]; break;
	case 5: B = A; m[1] = m[0]; break;
	case 6: s[0] = std::make_unique<Sources>(B); m[0] = m[1]; break;
	case 7: B = std::move(A); m[1] = m[0]; m[0].valid = false; break;
	case 8: A = std::move(B); m[0] = m[1]; m[1].valid = false; break;
	case 9: { Sources& alias = A; A = alias; break; }
	case 10: std::swap(A, B); std::swap(m[0], m[1]); break;
	case 11: s[0] = std::make_unique<Sources>(); m[0] = Model(); break;
	case 12: { Sources t; for (auto& e : B) { t.add(e->clone()); } s[1] = std::make_unique<Sources>(std::move(t)); break; }
	case 13: { Sources t(B); A = std::move(t); m[0] = m[1]; break; }
	case 14: B = Sources(); m[1] = Model(); break;
	}
}

int main()
{
	vh::Explorer ex;
	for (int k = 0; k < 3; k++) { auto s = make(k); ref.push_back(evalAll(*s)); }
	const int depth = ex.thorough() ? 5 : 4;
	std::vector<int> h;
	std::function<void()> rec = [&] {
		if (!h.empty()) {
			std::string key = "src";
			for (int o : h) { key += std::string(" ") + OPS[o]; }
			// Legal only when every prefix operation was enabled.
			Model m0[2];
			std::unique_ptr<Sources> dummy[2];
			if (ex.begin(key)) {
				ex.guarded([&] {
					Model m[2];
					std::unique_ptr<Sources> s[2] = { std::make_unique<Sources>(), std::make_unique<Sources>() };
					for (int o : h) {
						apply(o, s, m);
						ex.step();
						for (int c = 0; c < 2; c++) {
							if (!m[c].valid) { continue; }
							if (!ex.check(s[c]->size() == m[c].v.size(), "after ", OPS[o], " collection ", c, " holds ", s[c]->size(), " instead of ", m[c].v.size())) { return; }
							size_t i = 0;
							const Sources& cs = *s[c];
							for (auto& e : cs) {
								if (!ex.check(e != nullptr, "null excitation in collection ", c)) { return; }
								ex.check(evalAll(*e) == ref[m[c].v[i++]], "after ", OPS[o], " collection ", c, " evaluates differently");
							}
							ex.check(i == m[c].v.size(), "iteration visits ", i);
							std::string sig = c ? "B" : "A";
							for (int k : m[c].v) { sig += char('0' + k); }
							ex.state(sig);
						}
						// excitations are never shared between the two collections
						if (m[0].valid && m[1].valid) { for (auto& a : *s[0]) for (auto& b : *s[1]) { ex.check(a.get() != b.get(), "an excitation is shared"); } }
					}
					ex.trace();
				});
			}
		}
		if (int(h.size()) == depth) { return; }
		Model m[2];
		{
			std::unique_ptr<Sources> s[2] = { std::make_unique<Sources>(), std::make_unique<Sources>() };
			for (int o : h) { // model only
				Model &A = m[0], &B = m[1];
				switch (o) {
				case 0: A.v.push_back(0); break; case 1: A.v.push_back(1); break; case 2: A.v.push_back(2); break; case 3: B.v.push_back(1); break;
				case 4: case 6: case 13: A = B; break; case 5: B = A; break;
				case 7: B = A; A.valid = false; break; case 8: A = B; B.valid = false; break;
				case 10: std::swap(A, B); break; case 11: A = Model(); break; case 14: B = Model(); break;
				}
			}
		}
		for (int o = 0; o < NOPS; o++) { if (enabled(o, m)) { h.push_back(o); rec(); h.pop_back(); } }
	};
	rec();

	// Mutating what one collection holds never shows through a copy.
	for (int how = 0; how < 4; how++) for (int what = 0; what < 3; what++) {
		if (!ex.begin(vh::str("mutate how=", how, " what=", what))) { continue; }
		ex.guarded([&] {
			Sources a;
			a.add(make(0));
			Sources b;
			std::unique_ptr<Source> single;
			if (how == 0) { b = a; }
			if (how == 1) { Sources c(a); b = std::move(c); }
			if (how == 2) { single = (*a.begin())->clone(); b.add(std::move(single)); }
			if (how == 3) { b.add(**a.begin()); }
			auto* ini = dynamic_cast<InitialField*>(a.begin()->get());
			if (!ex.check(ini != nullptr, "type lost")) { return; }
			if (what == 0) { ini->polarization() = mfem::Vector({ 1.0, 0.0, 0.0 }); }
			if (what == 1) { ini->center()[0] = 9.0; }
			if (what == 2) { ini->fieldType() = H; }
			ex.check(evalAll(**b.begin()) == ref[0], "a copy changed with the original");
			ex.check(evalAll(**a.begin()) != ref[0], "original did not change");
			ex.step(2);
			ex.trace();
		});
	}
	// Probe sets: recordings of one never leak into a copy, histories of length <= 4.
	struct PM { std::vector<std::map<double, double>> f; };
	const char* pops[] = { "add", "rec0", "reclast", "copyAB", "copyBA", "moveAB" };
	std::vector<int> ph;
	std::function<void()> prec = [&] {
		if (!ph.empty()) {
			std::string key = "probe";
			for (int o : ph) { key += std::string(" ") + pops[o]; }
			if (ex.begin(key)) {
				ex.guarded([&] {
					Probes p[2];
					PM m[2];
					double t = 0;
					for (int o : ph) {
						t += 0.5;
						switch (o) {
						case 0: p[0].fieldProbes.push_back(FieldProbe(E, Y, { 0.1 * double(m[0].f.size()), 0.0 }, 3)); m[0].f.push_back({}); break;
						case 1: if (!m[0].f.empty()) { p[0].fieldProbes[0].addFieldToMovies(t, 2 * t); m[0].f[0].emplace(t, 2 * t); } break;
						case 2: if (!m[0].f.empty()) { p[0].fieldProbes.back().addFieldToMovies(t, -t); m[0].f.back().emplace(t, -t); } break;
						case 3: p[1] = p[0]; m[1] = m[0]; break;
						case 4: p[0] = p[1]; m[0] = m[1]; break;
						case 5: p[1] = std::move(p[0]); m[1] = m[0]; p[0] = Probes(); m[0] = PM(); break;
						}
						ex.step();
						for (int c = 0; c < 2; c++) {
							if (!ex.check(p[c].fieldProbes.size() == m[c].f.size(), "probe count")) { return; }
							for (size_t i = 0; i < m[c].f.size(); i++) {
								auto& mv = p[c].fieldProbes[i].getFieldMovie();
								ex.check(mv.size() == m[c].f[i].size() && std::equal(mv.begin(), mv.end(), m[c].f[i].begin()), "recorded values differ");
								if (!m[c].f[i].empty()) {
									auto mx = p[c].fieldProbes[i].findFrameWithMax(), mn = p[c].fieldProbes[i].findFrameWithMin();
									double hi = -1e300, lo = 1e300, th = 0, tl = 0;
									for (auto& [tt, v] : m[c].f[i]) { if (v > hi) { hi = v; th = tt; } if (v < lo) { lo = v; tl = tt; } }
									ex.check(mx.second == hi && mx.first == th && mn.second == lo && mn.first == tl, "extreme frame wrong");
								}
							}
						}
					}
					ex.trace();
				});
			}
		}
		if (ph.size() == 4) { return; }
		for (int o = 0; o < 6; o++) { ph.push_back(o); prec(); ph.pop_back(); }
	};
	prec();
	return ex.finish();
}
