// C23: surface recordings truncated at every byte offset.
#include "rx.hpp"
#include "components/RCSSurfacePostProcessor.h"

using namespace maxwell;
using hx::V3;

static const int NTFF = static_cast<int>(BdrCond::NearToFarField);
static double fHz(double k) { return k * rx::c0 / (2 * M_PI); }

int main()
{
	vh::Explorer ex;
	struct G { std::string name; rx::Surface s; int order, recs, ranks; };
	std::vector<G> gs{
		{ "quad", rx::surface(hx::QUAD, { 1, 1, 0 }, { -0.5, 0, 0 }, { 1, 1, 0 }, 0), 1, 3, 1 },
		{ "tri", rx::surface(hx::TRI, { 1, 1, 0 }, { 0.1, -0.4, 0 }, { 1.1, 0.6, 0 }, 0), 1, 2, 2 },
		{ "quad0", rx::surface(hx::QUAD, { 2, 1, 0 }, { 0.1, -0.4, 0 }, { 1.1, 0.6, 0 }, 0), 0, 4, 2 },
		{ "tet", rx::surface(hx::TET, { 1, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1, 2, 1 },
		{ "hex", rx::surface(hx::HEX, { 1, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1, 2, 1 } };
	if (ex.thorough()) { gs.push_back({ "hex2", rx::surface(hx::HEX, { 2, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1, 3, 2 }); }
	const rx::Pulse pw{ 0.8, -0.4, fHz(0.9) };
	for (auto& g : gs) {
		const int dim = g.s.dim(), ne = int(g.s.def.elems.size());
		std::vector<int> owner(ne);
		for (int e = 0; e < ne; e++) { owner[e] = e % g.ranks; }
		std::vector<double> times;
		for (int i = 0; i < g.recs; i++) { times.push_back(0.35 * i + 0.02 * i * i); }
		auto F = rx::FieldFn([](int c, const V3& x, int t) { return (0.5 + 0.3 * c - 0.17 * c * c) * (1 + std::sin(1.3 * t + c)) + 0.0 * x[0]; });
		std::vector<SphericalAngles> as{ { dim == 2 ? M_PI_2 : 1.1, 0.4 } };
		std::vector<double> fs{ fHz(0.7), fHz(1.4) };
		for (int cutRank = 0; cutRank < g.ranks; cutRank++) {
			std::string whole;
			size_t head, rec, n;
			{
				auto m = rx::part(g.s, owner, cutRank, NTFF).build();
				whole = rx::bytes(m, g.order, 1, times, F, NTFF);
				auto sf = hx::readSurface(whole);
				head = sf.headLen;
				rec = sf.recLen;
				n = sf.recs.size();
			}
			auto process = [&](const std::string& data, std::vector<double>& out, std::string& err) {
				hx::MuteAll mute;
				hx::spew("data/rank" + std::to_string(cutRank) + "/surface_data.bin", data);
				auto f2 = fs;
				try {
					RCSSurfacePostProcessor pp("data", "case.json", f2, as);
					for (double f : fs) {
						const double key = f / physicalConstants::speedOfLight_SI;
						for (double k : { key, std::nextafter(key, 1e9), std::nextafter(key, -1e9) }) {
							try { const double u = pp.getFarField(as[0], k), v = pp.getRCS(as[0], k); out.push_back(u); out.push_back(v); break; } catch (const std::out_of_range&) {}
						}
					}
					for (int r = 0; r < 2; r++) { std::vector<rx::Row> rows; rx::readRows(rx::fileName("data", r == 1, as[0].theta, as[0].phi), rows); for (auto& x : rows) { out.push_back(x.val); } }
					return true;
				} catch (const mfem::ShimIndexError&) { throw; }
				catch (const std::exception& e) { err = e.what(); return false; }
			};
			// one explored behaviour per record interval; its crash points are states
			for (size_t iv = 0; iv <= n + 1; iv++) {
				const size_t from = iv == 0 ? 0 : head + (iv - 1) * rec, to = iv == 0 ? head : std::min(whole.size() + 1, head + iv * rec);
				for (int chunk = 0; chunk < 8; chunk++) {
					const size_t a = from + (to - from) * chunk / 8, b = from + (to - from) * (chunk + 1) / 8;
					if (a >= b) { continue; }
					if (!ex.begin(vh::str(g.name, " rank ", cutRank, " interval ", iv, " bytes ", a, "-", b))) { continue; }
					ex.guarded([&] {
						hx::Scratch scratch;
						rx::writeRanks("data", g.s, owner, g.order, 1, times, F, NTFF);
						hx::spew("case.json", rx::caseJson(pw, { 1, 0, 0 }));
						std::vector<double> ref;
						std::string err;
						const size_t complete = a < head ? 0 : (a - head) / rec;
						if (complete > 0) {
							if (!ex.check(process(whole.substr(0, head + complete * rec), ref, err), "recording with ", complete, " complete records refused: ", err)) { return; }
							if (ex.check(ref.size() == 4 * fs.size(), "results missing") && g.ranks == 1) {
								std::vector<double> ts(times.begin(), times.begin() + complete);
								auto q = rx::quadrature(g.s);
								for (size_t i = 0; i < fs.size(); i++) {
									auto w = rx::expected(g.s, q, ts, F, fs[i], as[0].theta, as[0].phi, pw);
									ex.check(std::abs(ref[2 * i] - w.pot) <= 1e-5 * w.pot + 1e-6 * w.potScale && std::abs(ref[2 * i + 1] - w.rcs) <= 1e-5 * w.rcs + 1e-6 * w.rcsScale, "result of ", complete, " records: ", ref[2 * i], " ", ref[2 * i + 1], " instead of ", w.pot, " ", w.rcs);
								}
							}
						}
						for (size_t len = a; len < b; len++) {
							std::vector<double> got;
							const bool ok = process(whole.substr(0, len), got, err);
							ex.step();
							ex.state(vh::str("cut ", len));
							if (complete == 0) { ex.check(!ok, "accepted a recording of ", len, " bytes without a complete record"); continue; }
							if (!ex.check(ok, "refused a recording of ", len, " bytes with ", complete, " complete records: ", err)) { continue; }
							ex.check(got.size() == ref.size(), "number of results changes at ", len, " bytes");
							for (size_t i = 0; i < std::min(got.size(), ref.size()); i++) { ex.check(vh::close(got[i], ref[i], 1e-13), "cut at ", len, " bytes gives ", got[i], " instead of ", ref[i]); }
						}
						ex.trace();
					});
				}
			}
		}
	}
	return ex.finish();
}
