// C24: time cut-offs at, between and around record times; observation angles in and out of plane.
#include "rx.hpp"
#include "components/RCSSurfacePostProcessor.h"

using namespace maxwell;
using hx::V3;

static const int NTFF = static_cast<int>(BdrCond::NearToFarField);
static double fHz(double k) { return k * rx::c0 / (2 * M_PI); }

int main()
{
	vh::Explorer ex;
	struct G { std::string name; rx::Surface s; int order; };
	std::vector<G> gs{
		{ "quad", rx::surface(hx::QUAD, { 2, 1, 0 }, { -0.5, 0, 0 }, { 1, 1, 0 }, 0), 1 },
		{ "tri", rx::surface(hx::TRI, { 1, 1, 0 }, { 0.1, -0.4, 0 }, { 1.1, 0.6, 0 }, 0), 2 },
		{ "tet", rx::surface(hx::TET, { 1, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1 },
		{ "hex", rx::surface(hx::HEX, { 2, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1 } };
	const rx::Pulse pw{ 0.8, -0.4 };
	auto F = rx::FieldFn([](int c, const V3& x, int t) { return (0.5 + 0.3 * c - 0.17 * c * c) * (1 + std::sin(1.3 * t + c)) * (1 + 0.3 * x[0]); });
	struct Out { bool ok = false; std::string err; std::vector<double> v; };
	auto process = [&](const std::vector<double>& fs, const std::vector<SphericalAngles>& as, const std::optional<double>& mt) {
		Out o;
		hx::MuteAll mute;
		auto f2 = fs;
		try {
			if (mt) { RCSSurfacePostProcessor pp("data", "case.json", f2, as, mt); } else { RCSSurfacePostProcessor pp("data", "case.json", f2, as); }
			for (auto& a : as) for (int r = 0; r < 2; r++) { std::vector<rx::Row> rows; rx::readRows(rx::fileName("data", r == 1, a.theta, a.phi), rows); for (auto& x : rows) { o.v.push_back(x.val); } }
			o.ok = true;
		} catch (const mfem::ShimIndexError&) { throw; }
		catch (const std::exception& e) { o.err = e.what(); }
		return o;
	};
	const std::vector<std::vector<double>> timeSets{ { 0.0 }, { 0.0, 0.5 }, { 0.1, 0.2, 0.30000000000000004, 0.4 }, { 0.0, 0.013, 0.7, 0.71, 2.5 } };
	for (auto& g : gs) for (size_t ts = 0; ts < timeSets.size(); ts++) for (int ranks = 1; ranks <= 2; ranks++) {
		const auto& T = timeSets[ts];
		const int dim = g.s.dim(), ne = int(g.s.def.elems.size());
		std::vector<double> cuts{ -1.0, 1e300, std::numeric_limits<double>::infinity() };
		for (size_t i = 0; i < T.size(); i++) { cuts.push_back(T[i]); cuts.push_back(std::nextafter(T[i], -1e9)); cuts.push_back(std::nextafter(T[i], 1e9)); cuts.push_back(T[i] + 1e-6); cuts.push_back(T[i] - 1e-6); if (i + 1 < T.size()) { cuts.push_back(0.5 * (T[i] + T[i + 1])); } }
		for (double cut : cuts) {
			if (!ex.begin(vh::str(g.name, " times ", ts, " ranks ", ranks, " cut ", cut))) { continue; }
			ex.guarded([&] {
				hx::Scratch scratch;
				std::vector<int> owner(ne);
				for (int e = 0; e < ne; e++) { owner[e] = e % ranks; }
				std::vector<SphericalAngles> as{ { dim == 2 ? M_PI_2 : 1.1, 0.4 }, { dim == 2 ? M_PI_2 : 2.0, 2.4 } };
				std::vector<double> fs{ fHz(0.7), fHz(1.4) };
				hx::spew("case.json", rx::caseJson(pw, { 1, 0, 0 }));
				rx::writeRanks("data", g.s, owner, g.order, 1, T, F, NTFF);
				auto got = process(fs, as, cut);
				std::vector<double> kept;
				for (double t : T) { if (t <= cut) { kept.push_back(t); } }
				ex.step();
				ex.state(vh::str("kept ", kept.size()));
				if (kept.empty()) { ex.check(!got.ok, "accepted a cut-off that leaves no record"); ex.trace(); return; }
				if (!ex.check(got.ok, "refused: ", got.err)) { return; }
				rx::writeRanks("data", g.s, owner, g.order, 1, kept, F, NTFF);
				auto ref = process(fs, as, std::nullopt);
				if (!ex.check(ref.ok && ref.v.size() == got.v.size(), "shortened recording refused: ", ref.err)) { return; }
				for (size_t i = 0; i < ref.v.size(); i++) { ex.check(vh::close(got.v[i], ref.v[i], 1e-12), "value ", got.v[i], " instead of ", ref.v[i]); }
				auto q = rx::quadrature(g.s);
				size_t i = 0;
				for (auto& a : as) for (int r = 0; r < 2; r++) for (double f : fs) {
					auto w = rx::expected(g.s, q, kept, F, f, a.theta, a.phi, pw);
					const double v = got.v.at(i++), e = r ? w.rcs : w.pot, sc = r ? w.rcsScale : w.potScale;
					ex.check(std::abs(v - e) <= 1e-4 * e + 2e-6 * sc, r ? "cross section " : "far field ", v, " instead of ", e, " for ", kept.size(), " records");
				}
				ex.trace();
			});
		}
	}
	// ranks whose recordings end at different times: the cut-off applies to each
	for (int late = 0; late < 2; late++) {
		if (!ex.begin(vh::str("one rank empty ", late))) { continue; }
		ex.guarded([&] {
			hx::Scratch scratch;
			auto& g = gs[0];
			hx::spew("case.json", rx::caseJson(pw, { 1, 0, 0 }));
			rx::writeRanks("data", g.s, { 0, 1 }, g.order, 1, { 0.1, 0.2 }, F, NTFF);
			auto m = rx::part(g.s, { 0, 1 }, late, NTFF).build();
			hx::spew(vh::str("data/rank", late, "/surface_data.bin"), rx::bytes(m, g.order, 1, { 0.5, 0.6 }, F, NTFF));
			ex.check(!process({ fHz(1) }, { { M_PI_2, 0.1 } }, 0.3).ok, "accepted a cut-off leaving one rank without records");
			ex.step();
			ex.trace();
		});
	}
	// observation angles
	std::vector<std::pair<double, int>> thetas{ { M_PI_2, 1 } };
	for (double d : { 1e-16, 2.3e-16, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10 }) { thetas.push_back({ M_PI_2 + d, 1 }); thetas.push_back({ M_PI_2 - d, 1 }); }
	for (double d : { 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0 }) { thetas.push_back({ M_PI_2 + d, 0 }); thetas.push_back({ M_PI_2 - d, 0 }); }
	thetas.push_back({ 0.0, 0 });
	thetas.push_back({ M_PI, 0 });
	thetas.push_back({ -M_PI_2, 0 });
	for (size_t gi = 0; gi < gs.size(); gi++) for (size_t a = 0; a < thetas.size(); a++) for (int ph = 0; ph < 4; ph++) for (int pos = 0; pos < 3; pos++) for (int ranks = 1; ranks <= 2; ranks++) {
		auto& g = gs[gi];
		const int dim = g.s.dim();
		if (dim == 3 && (pos || ph > 1)) { continue; }
		if (!ex.begin(vh::str(g.name, " theta ", thetas[a].first, " phi ", ph, " at ", pos, " ranks ", ranks))) { continue; }
		ex.guarded([&] {
			hx::Scratch scratch;
			hx::spew("case.json", rx::caseJson(pw, { 1, 0, 0 }));
			std::vector<int> owner(g.s.def.elems.size());
			for (size_t e = 0; e < owner.size(); e++) { owner[e] = int(e) % ranks; }
			const std::vector<double> T{ 0.0, 0.3, 0.7 };
			rx::writeRanks("data", g.s, owner, g.order, 1, T, F, NTFF);
			std::vector<SphericalAngles> as;
			for (int i = 0; i < 3; i++) { as.push_back(i == pos ? SphericalAngles{ thetas[a].first, ph * 1.7 - 1 } : SphericalAngles{ M_PI_2, 0.2 + i }); }
			auto o = process({ fHz(1.0) }, as, std::nullopt);
			ex.step();
			const bool want = dim == 3 || thetas[a].second;
			if (!ex.check(o.ok == want, o.ok ? "accepted" : "refused", " theta ", thetas[a].first, " in ", dim, "-D: ", o.err) || !want) { return; }
			auto q = rx::quadrature(g.s);
			size_t i = 0;
			for (auto& b : as) for (int r = 0; r < 2; r++) {
				auto w = rx::expected(g.s, q, T, F, fHz(1.0), b.theta, b.phi, pw);
				if (!ex.check(i < o.v.size(), "results missing")) { return; }
				const double v = o.v[i++], e = r ? w.rcs : w.pot, sc = r ? w.rcsScale : w.potScale;
				ex.check(std::abs(v - e) <= 1e-4 * e + 2e-6 * sc, r ? "cross section " : "far field ", v, " instead of ", e);
			}
			ex.trace();
		});
	}
	return ex.finish();
}
