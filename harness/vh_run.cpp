// Conformance driver for whole steady runs (C02): the run of a control file, next to its phases carried out one by one.
#include "vh_real.hpp"
#include <petscksp.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <memory>
#include <boost/program_options/options_description.hpp>
#include <boost/program_options/variables_map.hpp>
#include "utilities/aoptionparser.hpp"
#include "utilities/controlparser.hpp"
#include "utilities/casesolvers.hpp"
#include "utilities/afactory.hpp"
#include "utilities/aerrorhandling.hpp"
#include "spatial/aoutput.hpp"
#include "linalg/alinalg.hpp"
#include "linalg/petscutils.hpp"
#include "ode/aodesolver.hpp"
using namespace fvens; using namespace vh;
namespace po = boost::program_options;
typedef UMesh<freal,NDIM> M;
static int rank_, size_;
static std::string values(const M& m, Vec u)
{
	ConstVecHandler<PetscScalar> h(u); const PetscScalar* const a = h.getArray(); std::vector<std::vector<double>> r(m.gnelem());
	for(fint i = 0; i < m.gnelem(); i++) r[i].assign(a+i*NVARS, a+(i+1)*NVARS);
	return rvv(r);
}
static void forwardGhosts(Vec u) { VecGhostUpdateBegin(u, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(u, INSERT_VALUES, SCATTER_FORWARD); }
static std::string gindices(const M& m) { std::vector<int> g; for(fint i = 0; i < m.gnelem(); i++) g.push_back(m.gglobalElemIndex(i)); return J::arr(g); }
/// One solve, by the solver classes themselves
static std::string phase(const M& m, const FlowPhysicsConfig& pc, const FlowNumericsConfig& nc, const FlowParserOptions& upd, const Job& job, const std::string& p, Vec u, const std::string& name, std::string& out)
{
	std::unique_ptr<const FlowFV_base<freal>> s(create_const_flowSpatialDiscretization<freal>(&m, pc, nc));
	SteadySolverConfig cf{}; cf.lognres = true; cf.logfile = job.s("dir") + "/ref"; cf.write_final_lin_sys = false; cf.cflinit = job.r(p+"cfl"); cf.cflfin = job.r(p+"cflend"); cf.tol = job.r(p+"tol"); cf.maxiter = job.i(p+"max");
	KSP ksp = NULL; Mat A = NULL, P = NULL; std::unique_ptr<const NonlinearUpdate<NVARS>> up; std::unique_ptr<SteadySolver<NVARS>> ss;
	if(job.i("implicit")) {
		if(setupSystemMatrix<NVARS>(&m, &P)) throw std::runtime_error("setupSystemMatrix");
		if(job.i("mf")) create_matrixfree_jacobian<NVARS>(s.get(), &A);
		KSPCreate(PETSC_COMM_WORLD, &ksp); KSPSetOperators(ksp, A ? A : P, P); KSPSetFromOptions(ksp);
		up.reset(create_const_nonlinearUpdateScheme<NVARS>(upd));
		ss.reset(new SteadyBackwardEulerSolver<NVARS>(s.get(), cf, ksp, up.get()));
	} else ss.reset(new SteadyForwardEulerSolver<NVARS>(s.get(), u, cf));
	out = "ok";
	try { const int ret = ss->solve(u); if(ret) throw std::runtime_error("solve failed"); if(!ss->getTimingData().converged) out = "idle"; }
	catch(const Tolerance_error&) { out = "tolerance"; }
	catch(const Numerical_error&) { out = "numerical"; }
	const TimingData t = ss->getTimingData(); std::vector<std::vector<double>> h; for(auto& x : t.convhis) h.push_back({(double)x.step, std::log10((double)x.rmsres), std::log10((double)x.absrmsres), x.cfl});
	forwardGhosts(u);
	J j; j.str("event", "Phase").str("name", name).str("out", out).raw("gi", gindices(m)).raw("u", values(m, u)).raw("hist", rvv(h));
	ss.reset(); if(ksp) KSPDestroy(&ksp); if(A) MatDestroy(&A); if(P) MatDestroy(&P);
	return j.done();
}
static std::vector<std::string> listing(const std::string& d)
{
	std::vector<std::string> v; DIR* const p = opendir(d.c_str()); if(!p) return v;
	while(dirent* e = readdir(p)) { const std::string s = e->d_name; if(s != "." && s != ".." && s.find(".info") == std::string::npos) v.push_back(s); }
	closedir(p); std::sort(v.begin(), v.end()); return v;
}
static std::vector<std::string> words(const std::string& f) { std::ifstream i(f); std::vector<std::string> v; std::string w; while(i >> w) v.push_back(w); return v; }
/// equal word for word, numbers up to the last digits written
static bool same(const std::string& a, const std::string& b)
{
	const auto x = words(a), y = words(b); if(x.size() != y.size() || x.empty()) return false;
	for(size_t i = 0; i < x.size(); i++) {
		if(x[i] == y[i]) continue;
		char *e, *g; const double p = std::strtod(x[i].c_str(), &e), q = std::strtod(y[i].c_str(), &g); if(*e || *g) return false;
		if(std::isnan(p) && std::isnan(q)) continue;
		if(!(std::fabs(p-q) <= 1e-5*(1e-3+std::fabs(p)))) return false;
	}
	return true;
}
static std::string history(const std::string& f, int& header)
{
	std::ifstream i(f); std::string l; std::vector<std::vector<double>> r; header = 0;
	while(std::getline(i, l)) {
		if(!l.empty() && l[0] == '#') { header++; continue; }
		std::stringstream ss(l); std::vector<double> v; std::string w; while(ss >> w) v.push_back(std::atof(w.c_str()));
		if(v.size() >= 7) r.push_back({v[0], v[1], v[2], v.back()}); else r.push_back(v);
	}
	return rvv(r);
}
static double systemError(const std::string& base, bool& finite)
{
	Mat A; Vec b, x; PetscViewer v; double e = 0, n = 0;
	MatCreate(PETSC_COMM_SELF, &A); PetscViewerBinaryOpen(PETSC_COMM_SELF, (base + "_lhs.pmat").c_str(), FILE_MODE_READ, &v); if(MatLoad(A, v)) return -1; PetscViewerDestroy(&v);
	VecCreate(PETSC_COMM_SELF, &b); PetscViewerBinaryOpen(PETSC_COMM_SELF, (base + "_b.pmat").c_str(), FILE_MODE_READ, &v); if(VecLoad(b, v)) return -1; PetscViewerDestroy(&v);
	VecCreate(PETSC_COMM_SELF, &x); PetscViewerBinaryOpen(PETSC_COMM_SELF, (base + "_x.pmat").c_str(), FILE_MODE_READ, &v); if(VecLoad(x, v)) return -1; PetscViewerDestroy(&v);
	double an; MatNorm(A, NORM_FROBENIUS, &an); if(!std::isfinite(an)) finite = false;
	Vec y; VecDuplicate(b, &y); if(MatMult(A, x, y)) return -1; VecAXPY(y, -1.0, b); VecNorm(y, NORM_2, &e); VecNorm(b, NORM_2, &n);
	MatDestroy(&A); VecDestroy(&b); VecDestroy(&x); VecDestroy(&y);
	return e/(1e-300+n);
}
static void run(const Job& job, std::vector<std::string>& ev)
{
	const std::string dir = job.s("dir"), ref = dir + "/ref.d", res = dir + "/out.d";
	if(rank_ == 0) { mkdir(dir.c_str(), 0700); mkdir(ref.c_str(), 0700); mkdir(res.c_str(), 0700); }
	MPI_Barrier(MPI_COMM_WORLD);
	std::vector<std::string> args = {"fvens", job.s("ctrl")}; if(job.i("system")) args.push_back("--write_final_linear_system=true");
	std::vector<const char*> argv; for(const auto& a : args) argv.push_back(a.c_str());
	po::options_description desc("test"); const po::variables_map vm = parse_cmd_options((int)argv.size(), argv.data(), desc);
	FlowParserOptions o = parse_flow_controlfile((int)argv.size(), argv.data(), vm);
	o.limiter_param = job.r("par");
	if(job.i("mf")) PetscOptionsSetValue(NULL, "-matrix_free_jacobian", NULL); else PetscOptionsClearValue(NULL, "-matrix_free_jacobian");
	PetscOptionsSetValue(NULL, "-ksp_rtol", job.s("rtol").c_str()); PetscOptionsSetValue(NULL, "-ksp_max_it", "100");
	const M m = constructMeshFlow(o, "");
	const FlowPhysicsConfig pc = extract_spatial_physics_config(o);
	const FlowNumericsConfig n2 = {job.s("flux"), job.s("jflux"), job.s("grad"), job.s("recon"), job.r("par"), (bool)job.i("order2")}, n1 = {job.s("flux"), job.s("jflux"), "NONE", "NONE", 1.0, false};
	Vec u; if(initializeSystemVector(o, m, &u)) throw std::runtime_error("initializeSystemVector");
	{ J j; j.str("event", "Initial").raw("gi", gindices(m)).raw("u", values(m, u)); ConstGhostedVecHandler<PetscScalar> h(u); std::vector<std::vector<double>> g; for(fint i = m.gnelem(); i < m.gnelem()+m.gnConnFace(); i++) g.push_back(std::vector<double>(h.getArray()+i*NVARS, h.getArray()+(i+1)*NVARS)); j.raw("ug", rvv(g)); ev.push_back(j.done()); }
	// the phases
	std::string so = "none", mo; Vec w; VecDuplicate(u, &w);
	auto reset = [&]() { ConstGhostedVecHandler<PetscScalar> h(u); MutableGhostedVecHandler<PetscScalar> g(w); for(fint i = 0; i < (m.gnelem()+m.gnConnFace())*NVARS; i++) g.getArray()[i] = h.getArray()[i]; };
	reset(); ev.push_back(phase(m, pc, n2, o, job, "m", w, "main", mo));
	std::string mo2 = "none";
	if(job.i("starter")) {
		reset(); ev.push_back(phase(m, pc, n1, o, job, "s", w, "starter", so));
		if(so != "numerical") ev.push_back(phase(m, pc, n2, o, job, "m", w, "main after starter", mo2));
	}
	// the state a run should leave is in w if there is a start-up solve; otherwise the main solve is repeated from the start
	if(!job.i("starter")) { std::string x; reset(); phase(m, pc, n2, o, job, "m", w, "main", x); }
	J j; j.str("event", "Run");
	std::string out = ""; FlowSolutionFunctionals f{-1,-1,-1,-1,-1}; const bool output = job.i("output");
	{
		SteadyFlowCase c(o);
		try { if(output) f = c.run_output(job.i("surface"), job.i("vtu"), m, u); else if(c.run(m, u)) out = "code"; }
		catch(const Tolerance_error&) { out = "tolerance"; }
		catch(const Numerical_error&) { out = "numerical"; }
		catch(const std::exception& e) { out = std::string("other: ") + e.what(); }
	}
	MPI_Barrier(MPI_COMM_WORLD);
	j.str("thrown", out).raw("gi", gindices(m)).raw("u", values(m, u));
	// the functionals and files of the expected final state
	std::vector<double> g(5, -1);
	if(output && so != "numerical") {
		const IdealGasPhysics<freal> phy(o.gamma, o.Minf, o.Tinf, o.Reinf, o.Pr);
		std::unique_ptr<const FlowFV_base<freal>> s(create_const_flowSpatialDiscretization<freal>(&m, pc, n2)); const FlowOutput fo(s.get(), &phy, pc.aoa);
		std::vector<GradBlock_t<freal,NDIM,NVARS>> gr(m.gnelem()+m.gnConnFace()); s->getGradients(w, &gr[0]);
		MVector<freal> tab; tab.resize(std::max<fint>(1,m.gnbface()), NDIM+2); std::tuple<freal,freal,freal> fc{0,0,0};
		const auto walls = job.iv("walls"), others = job.iv("others");
		if(!walls.empty()) { ConstVecHandler<freal> h(w); fc = s->computeSurfaceData(amat::Array2dView<freal>(h.getArray(), m.gnelem(), NVARS), &gr[0], walls[0], tab); }
		g = {1/std::sqrt((double)m.gnelemglobal()), fo.compute_entropy_cell(w), std::get<0>(fc), std::get<1>(fc), std::get<2>(fc)};
		if(size_ == 1) {
			MVector<freal> um; um.resize(m.gnelem(), NVARS); { ConstVecHandler<freal> h(w); for(fint i = 0; i < m.gnelem(); i++) for(int k = 0; k < NVARS; k++) um(i,k) = h.getArray()[i*NVARS+k]; }
			amat::Array2d<freal> sc, ve; std::string pn[] = {"density", "mach-number", "pressure", "temperature"};
			fo.exportSurfaceData(w, walls, others, ref + "/surf"); fo.exportVolumeData(um, ref + "/volume");
			fo.postprocess_point(w, sc, ve); writeScalarsVectorToVtu_PointData(ref + "/sol.vtu", m, sc, pn, ve, "velocity");
		}
	}
	j.raw("f", rv({f.meshSizeParameter, f.entropy, f.CL, f.CDp, f.CDsf})).raw("fref", rv(g));
	std::vector<std::string> files, differ; int header = -1; std::string rows = "[]"; double err = -1; bool finite = true;
	std::vector<int> sys(1, 0);
	if(rank_ == 0) {
		files = listing(res);
		for(const auto& x : files) if(access((ref + "/" + x).c_str(), R_OK) == 0 && !same(res + "/" + x, ref + "/" + x)) differ.push_back(x);
		if(std::find(files.begin(), files.end(), "log-residual_history.log") != files.end()) rows = history(res + "/log-residual_history.log", header);
		sys[0] = std::find(files.begin(), files.end(), "log_lhs.pmat") != files.end();
	}
	if(sys[0]) err = systemError(res + "/log", finite);
	auto quoted = [](const std::vector<std::string>& v) { std::string r = "["; for(size_t i = 0; i < v.size(); i++) { if(i) r += ","; r += J::quote(v[i]); } return r + "]"; };
	j.raw("files", quoted(files)).raw("differ", quoted(differ)).i("header", header).raw("hist", rows).raw("syserr", rs(err)).b("sysfinite", finite);
	ev.push_back(j.done());
	VecDestroy(&u); VecDestroy(&w);
	MPI_Barrier(MPI_COMM_WORLD);
	if(rank_ == 0) for(const std::string& d : {ref, res}) for(const auto& x : listing(d)) std::remove((d + "/" + x).c_str());
}
int main(int argc, char** argv)
{
	PetscInitialize(&argc, &argv, NULL, NULL);
	MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &size_);
	{
		const std::vector<Job> jobs = readJobs(argv[1]);
		const std::string sfx = size_ > 1 ? "." + std::to_string(rank_) : "";
		Out out(argv[2] + sfx, rank_ == 0 ? std::string(argv[3]) : std::string("/dev/null"));
		Quiet quiet;
		for(const Job& j : jobs) {
			MPI_Barrier(MPI_COMM_WORLD);
			out.begin(j.id);
			std::vector<std::string> ev; int bad = 0;
			try { run(j, ev); }
			catch(const std::exception& e) { J x; x.str("event","Exception").str("what", e.what()); ev.push_back(x.done()); bad = 1; }
			J l; l.i("id", j.id).raw("ev", J::arrs(ev)); out.line(l.done());
			if(bad && size_ > 1) { std::fprintf(stderr, "exception in job %d: %s\n", j.id, ev.back().c_str()); MPI_Abort(MPI_COMM_WORLD, 9); }
		}
	}
	PetscFinalize();
	return 0;
}
