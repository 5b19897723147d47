// Conformance driver for point-wise gas physics: thermodynamics, numerical fluxes, boundary states.
#include "vh_real.hpp"
#include "physics/aphysics_defs.hpp"
#include "physics/viscousphysics.hpp"
#include "spatial/abc.hpp"
#include "utilities/afactory.hpp"
#include <mpi.h>
#include <memory>
using namespace fvens; using namespace vh;
typedef IdealGasPhysics<freal> Phy;

static std::vector<std::string> physEvents(const Job& j, const Phy& ph)
{
	std::vector<std::string> ev;
	const auto u = j.rv("u"), n = j.rv("n"), du = j.rv("du"), gx = j.rv("gx"), gy = j.rv("gy");
	const double aoa = j.r("aoa"), T0 = j.r("T0");
	const double Z = 0;
	{
		J e; e.str("event", "State");
		const double p = ph.getPressureFromConserved(&u[0]);
		e.raw("p", rs(p));
		double w[4], w2[4], uc[4];
		ph.getPrimitiveFromConserved(&u[0], w); e.raw("prim", rv(w,4));
		ph.getPrimitive2FromConserved(&u[0], w2); e.raw("prim2", rv(w2,4));
		ph.getConservedFromPrimitive(w, uc); e.raw("back", rv(uc,4));
		e.raw("eprim", rs(ph.getEnergyFromPrimitive(w))).raw("eprim2", rs(ph.getEnergyFromPrimitive2(w2)));
		const double v2 = w[1]*w[1]+w[2]*w[2];
		e.raw("ep", rs(ph.getEnergyFromPressure(p, u[0], v2)));
		e.raw("et", rs(ph.getEnergyFromTemperature(w2[3], u[0], v2)));
		e.raw("T", rs(ph.getTemperatureFromConserved(&u[0]))).raw("T2", rs(ph.getTemperature(u[0], p))).raw("T3", rs(ph.getTemperatureFromPrimitive(w)));
		e.raw("rho", rs(ph.getDensityFromPressureTemperature(p, w2[3])));
		e.raw("c", rs(ph.getSoundSpeedFromConserved(&u[0]))).raw("c2", rs(ph.getSoundSpeed(u[0], p)));
		e.raw("s", rs(ph.getEntropyFromConserved(&u[0])));
		double v[2], vn, pp, H; ph.getVarsFromConserved(&u[0], &n[0], v, vn, pp, H);
		e.raw("v", rv(v,2)).raw("vn", rs(vn)).raw("pv", rs(pp)).raw("H", rs(H));
		e.raw("dp", rs(ph.getDeltaPressureFromConserved(&u[0], &du[0])));
		double f[4]; ph.getDirectionalFluxFromConserved(&u[0], &n[0], f); e.raw("flux", rv(f,4));
		ph.getDirectionalFlux(&u[0], &n[0], vn, pp, f); e.raw("flux2", rv(f,4));
		ev.push_back(e.done());
	}
	{
		J e; e.str("event", "Transport");
		const double T = ph.getTemperatureFromConserved(&u[0]);
		e.raw("mu", rs(ph.getViscosityCoeffFromConserved(&u[0]))).raw("muT", rs(ph.getViscosityCoeffFromTemperature(T))).raw("muc", rs(ph.getConstantViscosityCoeff()));
		e.raw("k", rs(ph.getThermalConductivityFromViscosity(ph.getViscosityCoeffFromConserved(&u[0]))));
		double g[2][4]; for(int i = 0; i < 4; i++) { g[0][i] = gx[i]; g[1][i] = gy[i]; }
		double st[2][2]; ph.getStressTensor(0.25, g, st); e.raw("stress", rm(&st[0][0],2,2));
		e.raw("pinf", rs(ph.getFreestreamPressure()));
		auto ui = ph.compute_freestream_state(aoa); e.raw("uinf", rarr(ui,4));
		// gradients, from gradients of the conserved variables
		e.raw("gpx", rs(ph.getGradPressureFromConservedAndGradConserved(&u[0], &gx[0])));
		double p2[4]; ph.getGradPrimitive2FromConservedAndGradConserved(&u[0], &gx[0], p2); e.raw("gprim2", rv(p2,4));
		e.raw("gT", rs(ph.getGradTemperatureFromConservedAndGradConserved(&u[0], &gx[0])));
		e.raw("gTp", rs(ph.getGradTemperatureFromConservedAndGradPrimitive(&u[0], &gx[0])));
		double w[4]; ph.getPrimitiveFromConserved(&u[0], w);
		e.raw("gT2", rs(ph.getGradTemperature(w[0], gx[0], w[3], gx[3])));
		ev.push_back(e.done());
	}
	{
		J e; e.str("event", "Derivatives");
		double a[16], b[8], c[4], d[4];
		auto z = [&](double* x, int k) { for(int i = 0; i < k; i++) x[i] = Z; };
		z(a,4); ph.getJacobianPressureWrtConserved(&u[0], a); e.raw("dp", rv(a,4));
		z(a,4); ph.getJacobianVmag2WrtConserved(&u[0], a); e.raw("dv2", rv(a,4));
		z(a,4); ph.getJacobianSoundSpeedWrtConserved(&u[0], a); e.raw("dc", rv(a,4));
		z(a,4); ph.getJacobianTemperatureWrtConserved(&u[0], a); e.raw("dT", rv(a,4));
		z(a,4); ph.getJacobianMachNormalWrtConserved(&u[0], &n[0], a); e.raw("dM", rv(a,4));
		z(a,16); ph.getJacobianDirectionalFluxWrtConserved(&u[0], &n[0], a); e.raw("dF", rm(a,4,4));
		z(a,16); ph.getJacobianPrimitive2WrtConserved(&u[0], a); e.raw("dW2", rm(a,4,4));
		z(a,4); ph.getJacobianSutherlandViscosityWrtConserved(&u[0], a); e.raw("dmu", rv(a,4));
		z(c,4); ph.getJacobianThermCondWrtConservedFromJacobianSutherViscWrtConserved(a, c); e.raw("dk", rv(c,4));
		z(a,4); z(b,8); z(c,4); z(d,4);
		ph.getJacobianVarsWrtConserved(&u[0], &n[0], b, c, a, d);
		e.raw("dv", rm(b,2,4)).raw("dvn", rv(c,4)).raw("dp2", rv(a,4)).raw("dH", rv(d,4));
		// density from pressure and temperature, energy from temperature and squared speed
		double dp[4], dT[4], dr[4], dv2[4], de[4]; z(dp,4); z(dT,4); z(dr,4); z(dv2,4); z(de,4);
		ph.getJacobianPressureWrtConserved(&u[0], dp); ph.getJacobianTemperatureWrtConserved(&u[0], dT); ph.getJacobianVmag2WrtConserved(&u[0], dv2);
		const double p = ph.getPressureFromConserved(&u[0]), T = ph.getTemperatureFromConserved(&u[0]);
		ph.getJacobianDensityFromJacobiansPressureTemperature(p, T, dp, dT, dr); e.raw("drho", rv(dr,4));
		const double v2 = (u[1]*u[1]+u[2]*u[2])/(u[0]*u[0]);
		ph.getJacobianEnergyFromJacobiansTemperatureVmag2(T, u[0], v2, dT, dv2, de); e.raw("de", rv(de,4));
		ev.push_back(e.done());
	}
	return ev;
}

static std::string fluxEvent(const std::string& name, const Phy& ph, const InviscidFlux<freal>* fx, const double* l, const double* r, const double* n, double ang, bool jac)
{
	J e; e.str("event", "Flux").str("name", name).raw("l", rv(l,4)).raw("r", rv(r,4)).raw("n", rv(n,2));
	double f[4], g[4], h[4];
	fx->get_flux(l, r, n, f);
	const double mn[2] = {-n[0],-n[1]};
	fx->get_flux(r, l, mn, g);
	const double c = std::cos(ang), s = std::sin(ang);
	auto rot = [&](const double* a, double* b) { b[0] = a[0]; b[1] = c*a[1]-s*a[2]; b[2] = s*a[1]+c*a[2]; b[3] = a[3]; };
	double lr[4], rr[4], nr[2] = {c*n[0]-s*n[1], s*n[0]+c*n[1]}; rot(l,lr); rot(r,rr);
	fx->get_flux(lr, rr, nr, h);
	e.raw("f", rv(f,4)).raw("swapped", rv(g,4)).raw("cs", "[" + rs(c) + "," + rs(s) + "]").raw("rotated", rv(h,4));
	if(jac) {
		double a[16], b[16]; for(int i = 0; i < 16; i++) { a[i] = 7.5; b[i] = -3.5; }    // documented to be assigned
		fx->get_jacobian(l, r, n, a, b);
		e.raw("L", rm(a,4,4)).raw("U", rm(b,4,4));
		const auto* llf = dynamic_cast<const LocalLaxFriedrichsFlux<freal>*>(fx);
		if(llf) { llf->get_jacobian_2(l, r, n, a, b); e.raw("L2", rm(a,4,4)).raw("U2", rm(b,4,4)); }
	}
	return e.done();
}

static std::vector<std::string> fluxEvents(const Job& j, const Phy& ph)
{
	std::vector<std::string> ev;
	const auto l = j.rv("l"), r = j.rv("r"), n = j.rv("n");
	std::stringstream names(j.s("names")); std::string nm;
	const std::string jn = "," + j.s("jac") + ",";
	while(std::getline(names, nm, ',')) {
		std::unique_ptr<const InviscidFlux<freal>> fx(create_const_inviscidflux<freal>(nm, &ph));
		if(!fx) { ev.push_back(J().str("event", "NoFlux").str("name", nm).done()); continue; }
		ev.push_back(fluxEvent(nm, ph, fx.get(), &l[0], &r[0], &n[0], j.r("ang"), jn.find("," + nm + ",") != std::string::npos));
	}
	return ev;
}

static std::vector<std::string> bcEvents(const Job& j, const Phy& ph)
{
	std::vector<std::string> ev;
	const auto u = j.rv("u"), n = j.rv("n"), vals = j.rv("vals");
	auto uinf = ph.compute_freestream_state(j.r("aoa"));
	// several boundaries in one configuration, in the order and with the markers of the job
	std::vector<FlowBCConfig> conf;
	const auto types = j.iv("types"), tags = j.iv("tags");
	for(size_t i = 0; i < types.size(); i++) {
		FlowBCConfig c; c.bc_tag = tags[i]; c.bc_type = (BCType)types[i];
		c.bc_vals = {vals[2*i], vals[2*i+1]};
		conf.push_back(c);
	}
	const auto bcs = create_const_flowBCs<freal>(conf, ph, uinf);
	std::vector<int> keys; for(auto& b : bcs) keys.push_back(b.first);
	ev.push_back(J().str("event", "BCs").a("keys", keys).done());
	for(size_t i = 0; i < types.size(); i++) {
		auto it = bcs.find(tags[i]); if(it == bcs.end()) continue;
		double g[4] = {0,0,0,0}; it->second->computeGhostState(&u[0], &n[0], g);
		J e; e.str("event", "Ghost").i("tag", tags[i]).i("ttag", const_cast<FlowBC<freal>*>(it->second)->bctag()).i("ttype", (int)it->second->bctype).raw("g", rv(g,4));
		if(types[i] != SUBSONIC_INFLOW_BC) {
			double h[4], d[16]; for(int k = 0; k < 16; k++) d[k] = 5.25;
			it->second->computeGhostStateAndJacobian(&u[0], &n[0], h, d);
			e.raw("gj", rv(h,4)).raw("dg", rm(d,4,4));
		}
		ev.push_back(e.done());
	}
	// the wall with a given velocity vector
	{
		std::array<freal,NDIM> wv; wv[0] = vals[0]; wv[1] = vals[1];
		Adiabaticwall<freal> w(99, ph, wv);
		double g[4], h[4], d[16]; for(int k = 0; k < 16; k++) d[k] = 5.25;
		w.computeGhostState(&u[0], &n[0], g); w.computeGhostStateAndJacobian(&u[0], &n[0], h, d);
		ev.push_back(J().str("event", "WallGhost").raw("wv", rv(wv.data(),2)).raw("g", rv(g,4)).raw("gj", rv(h,4)).raw("dg", rm(d,4,4)).done());
	}
	for(auto& b : bcs) delete b.second;
	return ev;
}

static std::vector<std::string> viscEvents(const Job& j, const Phy& ph)
{
	const auto l = j.rv("l"), r = j.rv("r"), n = j.rv("n"), gl = j.rv("gl"), gr = j.rv("gr");
	std::vector<std::string> ev;
	double tl[4], tr[4], dl[8], dr[8];
	getPrimitive2StatesAndGradients<freal,NDIM,true>(ph, &l[0], &r[0], &gl[0], &gr[0], tl, tr, dl, dr);
	J e; e.str("event", "Prim2").raw("wl", rv(tl,4)).raw("wr", rv(tr,4)).raw("gl", rm(dl,2,4)).raw("gr", rm(dr,2,4));
	double ul[4], ur[4];
	getPrimitive2StatesAndGradients<freal,NDIM,false>(ph, &l[0], &r[0], nullptr, nullptr, ul, ur, nullptr, nullptr);
	e.raw("wl1", rv(ul,4)).raw("wr1", rv(ur,4));
	double g[2][4]; for(int d = 0; d < 2; d++) for(int i = 0; i < 4; i++) g[d][i] = gl[4*d+i];
	double f[4], h[4];
	computeViscousFlux<freal,NDIM,NVARS,true>(ph, &n[0], g, &l[0], &r[0], f);
	computeViscousFlux<freal,NDIM,NVARS,false>(ph, &n[0], g, &l[0], &r[0], h);
	e.raw("fc", rv(f,4)).raw("fs", rv(h,4));
	ev.push_back(e.done());
	return ev;
}

int main(int argc, char** argv)
{
	MPI_Init(&argc, &argv);
	{
		auto jobs = readJobs(argv[1]); Out out(argv[2], argv[3]);
		for(auto& j : jobs) {
			out.begin(j.id);
			Quiet q;
			std::vector<std::string> ev;
			try {
				const Phy ph(j.r("g",1.4), j.r("M",0.5), j.r("Tinf",288.15), j.r("Re",100), j.r("Pr",0.72));
				const std::string k = j.s("kind");
				if(k == "phys") ev = physEvents(j, ph);
				else if(k == "flux") ev = fluxEvents(j, ph);
				else if(k == "bc") ev = bcEvents(j, ph);
				else if(k == "visc") ev = viscEvents(j, ph);
			}
			catch(const std::exception& x) { ev.push_back(J().str("event", "Exception").str("what", x.what()).done()); }
			catch(...) { ev.push_back(J().str("event", "Exception").str("what", "unknown").done()); }
			out.line(J().i("id", j.id).raw("ev", J::arrs(ev)).done());
		}
	}
	MPI_Finalize();
}
