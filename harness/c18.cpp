// C18: state recordings. Every window / count / step / run length on a grid, files read back.
#include "hx.hpp"
#include "solver/Solver.h"

using namespace maxwell;

int main()
{
	vh::Explorer ex;
	auto def = hx::box(hx::SEG, { 2, 0, 0 });
	std::vector<double> dts{ 0.02, 0.015 }, tfs{ 0.1, 0.21 }, starts{ 0.0, 0.02, 0.033, 0.1, 0.5 }, lens{ 0.0, 0.01, 0.06, 0.08, 0.1, 0.17 };
	std::vector<int> saves{ 0, 1, 2, 3, 5, 12 };
	if (ex.thorough()) { dts.push_back(0.007); tfs.push_back(0.3); saves.push_back(4); saves.push_back(7); }
	for (double dt : dts) for (double tf : tfs) for (double st : starts) for (double ln : lens) for (int sv : saves) for (int two = 0; two < 2; two++) {
		if (!ex.begin(vh::str("dt=", dt, " tf=", tf, " window=", st, "+", ln, " saves=", sv, two ? " two" : ""))) { continue; }
		ex.guarded([&] {
			hx::Scratch scratch;
			hx::MuteAll mute;
			auto mesh = def.build();
			auto model = hx::model(mesh, hx::allOuter(1, BdrCond::PEC));
			Sources s;
			s.add(InitialField(Gaussian(0.2, mfem::Vector({ 0.0 })), E, mfem::Vector({ 0.0, 1.0, 1.0 / 3 }), mfem::Vector({ 0.4 })));
			Probes p;
			MORStateProbe q;
			q.name = "alpha";
			q.record_time_start = st;
			q.record_time_final = st + ln;
			q.saves = sv;
			p.morStateProbes.push_back(q);
			if (two) { MORStateProbe w = q; w.name = "beta"; w.saves = 2; w.record_time_start = 0.0; w.record_time_final = dt; p.morStateProbes.push_back(w); }
			SolverOptions o;
			o.setOrder(1).setFinalTime(tf).setTimeStep(dt);
			maxwell::Solver sol(model, p, s, o);
			std::vector<std::pair<double, std::vector<double>>> hist;
			auto snap = [&] { const auto& v = sol.getFields().allDOFs(); hist.push_back({ sol.getTime(), std::vector<double>(v.GetData(), v.GetData() + v.Size()) }); };
			snap();
			for (int guard = 0; guard < 200 && sol.getTime() <= tf - 1e-8 * dt; guard++) { sol.step(); snap(); ex.step(); }
			for (size_t pi = 0; pi < p.morStateProbes.size(); pi++) {
				const auto& m = p.morStateProbes[pi];
				const std::string dir = "Exports/single-core/case/MORStateProbes/" + m.name;
				int n = 0;
				std::set<std::string> names;
				if (hx::fs::exists(dir)) { for (auto& e : hx::fs::directory_iterator(dir)) { names.insert(e.path().filename().string()); } }
				while (names.count("x_" + std::to_string(n))) { n++; }
				ex.check(int(names.size()) == n, m.name, ": files are not numbered consecutively from zero");
				ex.check(n <= std::max(0, m.saves), m.name, ": ", n, " snapshots, ", m.saves, " requested");
				const double a = m.record_time_start, b = m.record_time_final, sp = m.saves > 1 ? (b - a) / (m.saves - 1) : 0;
				double last = -1e9;
				std::vector<double> taken;
				for (int i = 0; i < n; i++) {
					auto L = hx::lines(hx::slurp(dir + "/x_" + std::to_string(i)));
					if (!ex.check(L.size() >= 2, "snapshot ", i, " too short")) { return; }
					const double t = std::strtod(L[0].c_str(), nullptr);
					taken.push_back(t);
					ex.check(t >= a - 1e-9 && t <= b + 1e-9, m.name, ": snapshot ", i, " at ", t, " outside the window");
					ex.check(t > last, m.name, ": snapshots out of order");
					last = t;
					// never ahead of its slot, hence never closer than the spacing allows on average
					ex.check(t >= a + i * sp - 1e-5 * sp - 1e-9, m.name, ": snapshot ", i, " at ", t, " is ahead of the requested spacing");
					const std::vector<double>* x = nullptr;
					for (auto& h : hist) { if (vh::close(h.first, t, 1e-13, 1e-15)) { x = &h.second; } }
					if (!ex.check(x != nullptr, m.name, ": snapshot time ", t, " is not a step time")) { return; }
					if (!ex.check(L.size() == x->size() + 2 && std::stoul(L[1]) == x->size(), m.name, ": snapshot ", i, " is incomplete")) { return; }
					for (size_t k = 0; k < x->size(); k++) { ex.check(vh::close(std::strtod(L[k + 2].c_str(), nullptr), (*x)[k], 1e-15, 0), m.name, ": value ", k, " of snapshot ", i, " differs"); }
				}
				// every slot reached inside the window is used
				std::vector<double> want;
				for (auto& h : hist) {
					const size_t i = want.size();
					if (int(i) < m.saves && h.first >= a - 1e-12 && h.first <= b + 1e-12 && h.first >= a + i * sp - 1e-6 * sp - 1e-12) { want.push_back(h.first); }
				}
				ex.check(want.size() == taken.size(), m.name, ": ", taken.size(), " snapshots instead of ", want.size());
				for (size_t i = 0; i < std::min(want.size(), taken.size()); i++) { ex.check(vh::close(want[i], taken[i], 1e-13, 1e-15), m.name, ": snapshot ", i, " at ", taken[i], " instead of ", want[i]); }
				// A run that covers the window with fine enough steps that hit its end stores all of them.
				bool hitsEnd = false;
				double gap = 0;
				for (size_t i = 0; i < hist.size(); i++) { if (std::abs(hist[i].first - b) < 1e-12) { hitsEnd = true; } if (i) { gap = std::max(gap, hist[i].first - hist[i - 1].first); } }
				if (hitsEnd && m.saves > 1 && gap <= sp + 1e-12) { ex.check(n == m.saves, m.name, ": ", n, " snapshots of ", m.saves); ex.note("complete_windows"); }
			}
			ex.trace();
		});
	}
	return ex.finish();
}
