// Conformance driver for the nonlinear solvers: the spatial operator is a script, so that every residual history can be produced
// and every evaluation the solver makes (state, time steps asked for, contributions across processes) is recorded.
#include "vh_real.hpp"
#include <petscksp.h>
#include <omp.h>
#include <set>
#include <iomanip>
#include <memory>
#include "mesh/mesh.hpp"
#include "mesh/meshreaders.hpp"
#include "mesh/meshpartitioning.hpp"
#include "linalg/alinalg.hpp"
#include "linalg/petscutils.hpp"
#include "ode/aodesolver.hpp"
#include "utilities/aerrorhandling.hpp"
using namespace fvens; using namespace vh;
typedef UMesh<freal,NDIM> M;
static int rank_, size_; static bool distributed_;
struct GivenPartitioner : public ReplicatedGlobalMeshPartitioner {
	std::vector<int> own;
	GivenPartitioner(const M& g, const std::vector<int>& o) : ReplicatedGlobalMeshPartitioner(g), own(o) {}
	void compute_partition() { elemdist = own; }
};
static int gidx(const M& m, fint i) { return distributed_ ? m.gglobalElemIndex(i) : i; }
static std::vector<int> ghosts(const M& m) { if(!distributed_) return {}; const auto g = m.getConnectivityGlobalIndices(); return std::vector<int>(g.begin(), g.end()); }

/// Residual of evaluation k at cell g: R[k][g] + the inter-process contributions - K (u - u_k), where u_k is the state of the evaluation
template <int nv> struct Scripted : public Spatial<freal,nv> {
	const M& m; std::vector<std::vector<double>> R, dt; double kappa, bcoef; bool coupled;
	mutable int step = 0; mutable std::vector<double> ucur; std::vector<std::string>& ev;
	std::vector<int> gh;
	Scripted(const M& mesh, std::vector<std::string>& e) : Spatial<freal,nv>(&mesh), m(mesh), ev(e), gh(ghosts(mesh)) {}
	double s(int a, int b) const { return coupled ? kappa/(1.0+a+b) : 0; }
	double d(int a) const { return bcoef*(1.0+a); }
	int other(fint f) const { return f >= m.gConnBFaceStart() && f < m.gConnBFaceEnd() ? gh[f-m.gConnBFaceStart()] : gidx(m, m.gintfac(f,1)); }
	StatusCode compute_residual(const Vec u, Vec res, const bool want, Vec dtm) const
	{
		const fint n = m.gnelem(), nt = n+m.gnConnFace();
		ConstGhostedVecHandler<PetscScalar> uh(u); const PetscScalar* const ua = uh.getArray();
		MutableGhostedVecHandler<PetscScalar> rh(res); PetscScalar* const ra = rh.getArray();
		bool zero = true; for(fint i = 0; i < nt*nv; i++) zero = zero && ra[i] == 0;
		std::vector<double> before(ra, ra+nt*nv);
		const int k = std::min<int>(step, R.size()-1);
		if(want) { ucur.assign(ua, ua+nt*nv); step++; }
		const int kk = want ? k : std::max(0, std::min<int>(step-1, R.size()-1));
		for(fint i = 0; i < n; i++) for(int v = 0; v < nv; v++) ra[i*nv+v] += R[kk][gidx(m,i)*nv+v];
		for(fint f = m.gConnBFaceStart(); f < m.gConnBFaceEnd(); f++) {       // each side contributes to the other
			const fint c = f - m.gConnBFaceStart(); const double w = 0.01*(1+gidx(m, m.gintfac(f,0)));
			for(int v = 0; v < nv; v++) ra[(n+c)*nv+v] += w*(v+1)*(R[kk][gh[c]*nv+v]);
		}
		if(!want) {
			for(fint f = m.gFaceStart(); f < m.gFaceEnd(); f++) {
				const fint l = m.gintfac(f,0); const bool phy = f >= m.gPhyBFaceStart() && f < m.gPhyBFaceEnd(), con = f >= m.gConnBFaceStart() && f < m.gConnBFaceEnd();
				for(int v = 0; v < nv; v++) {
					const double dl = ua[l*nv+v]-ucur[l*nv+v];
					if(phy) { ra[l*nv+v] -= d(gidx(m,l))*dl; continue; }
					const fint r = con ? n+f-m.gConnBFaceStart() : m.gintfac(f,1);
					const double c = s(gidx(m,l), con ? gh[f-m.gConnBFaceStart()] : gidx(m,r)), dr = ua[r*nv+v]-ucur[r*nv+v];
					if(con) { ra[l*nv+v] -= 0.5*c*(dl-dr); ra[r*nv+v] += 0.5*c*(dl-dr); }      // the other process adds the other half
					else { ra[l*nv+v] -= c*(dl-dr); ra[r*nv+v] += c*(dl-dr); }
				}
			}
			return 0;
		}
		if(dtm) { MutableVecHandler<PetscScalar> dh(dtm); for(fint i = 0; i < n; i++) dh.getArray()[i] = dt[std::min<int>(k, dt.size()-1)][gidx(m,i)]; }
		J j; j.str("event","Residual").b("zero",zero);
		std::vector<int> gi; std::vector<std::vector<double>> uu(n), rr(n), ug(nt-n), rg(nt-n); std::vector<double> dd(n);
		for(fint i = 0; i < n; i++) { gi.push_back(gidx(m,i)); uu[i].assign(ua+i*nv, ua+(i+1)*nv); dd[i] = dt[std::min<int>(k, dt.size()-1)][gidx(m,i)];
			rr[i].resize(nv); for(int v = 0; v < nv; v++) rr[i][v] = ra[i*nv+v]-before[i*nv+v]; }
		for(fint i = n; i < nt; i++) { ug[i-n].assign(ua+i*nv, ua+(i+1)*nv); rg[i-n].resize(nv); for(int v = 0; v < nv; v++) rg[i-n][v] = ra[i*nv+v]-before[i*nv+v]; }
		j.a("gi",gi).a("gh",gh).raw("u",rvv(uu)).raw("ug",rvv(ug)).raw("r",rvv(rr)).raw("rg",rvv(rg)).raw("dt",rv(dd));
		ev.push_back(j.done());
		return 0;
	}
	typedef Eigen::Matrix<freal,nv,nv,Eigen::RowMajor> B;
	void compute_local_jacobian_interior(const fint f, const freal* const, const freal* const, B& L, B& U) const
	{ const double c = s(gidx(m, m.gintfac(f,0)), other(f)); L = -c*B::Identity(); U = -c*B::Identity(); }
	void compute_local_jacobian_boundary(const fint f, const freal* const, B& L) const { L = -d(gidx(m, m.gintfac(f,0)))*B::Identity(); }
	void getGradients(const Vec, GradBlock_t<freal,NDIM,nv>* const) const {}
	/// the matrix K by rows, of the cells of this process
	std::string matrix() const
	{
		std::map<std::pair<int,int>,double> k;
		for(fint f = m.gFaceStart(); f < m.gFaceEnd(); f++) {
			const int l = gidx(m, m.gintfac(f,0));
			if(f >= m.gPhyBFaceStart() && f < m.gPhyBFaceEnd()) { k[{l,l}] += d(l); continue; }
			const bool con = f >= m.gConnBFaceStart() && f < m.gConnBFaceEnd(); const int r = con ? gh[f-m.gConnBFaceStart()] : gidx(m, m.gintfac(f,1)); const double c = s(l,r);
			if(c == 0) continue;
			k[{l,l}] += c; k[{l,r}] -= c; if(!con) { k[{r,r}] += c; k[{r,l}] -= c; }
		}
		std::string o = "["; bool first = true; for(auto& e : k) { if(!first) o += ","; first = false; o += "[" + std::to_string(e.first.first) + "," + std::to_string(e.first.second) + "," + rs(e.second) + "]"; }
		return o + "]";
	}
};
template <int nv> static void unsteady(const Job&, const Scripted<nv>&, Vec, int&, std::vector<std::vector<double>>&) { throw std::runtime_error("no scalar Runge-Kutta solver"); }
template <> void unsteady<NVARS>(const Job& job, const Scripted<NVARS>& sp, Vec u, int& ret, std::vector<std::vector<double>>&)
{ TVDRKSolver<NVARS> s(&sp, u, job.i("order"), job.s("log"), job.r("cfl")); ret = s.solve(job.r("final")); }

template <int nv> static void solve(const Job& job, const M& m, std::vector<std::string>& ev)
{
	Scripted<nv> sp(m, ev);
	sp.kappa = job.r("kappa"); sp.bcoef = job.r("bcoef"); sp.coupled = job.i("coupled");
	for(int k = 0; k < job.i("nr"); k++) sp.R.push_back(job.rv("r" + std::to_string(k)));
	for(int k = 0; k < job.i("nd"); k++) sp.dt.push_back(job.rv("d" + std::to_string(k)));
	const auto u0 = job.rv("u0"); const fint n = m.gnelem();
	Vec u; createGhostedSystemVector(&m, nv, &u);
	{ MutableVecHandler<PetscScalar> uh(u); for(fint i = 0; i < n; i++) for(int v = 0; v < nv; v++) uh.getArray()[i*nv+v] = u0[gidx(m,i)*nv+v]; }
	VecGhostUpdateBegin(u, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(u, INSERT_VALUES, SCATTER_FORWARD);
	{ J j; j.str("event","Setup"); std::vector<int> gi; std::vector<double> a; for(fint i = 0; i < n; i++) { gi.push_back(gidx(m,i)); a.push_back(m.garea(i)); }
	  j.a("gi",gi).raw("area",rv(a)).raw("K",sp.matrix()); ev.push_back(j.done()); }
	SteadySolverConfig cf{}; cf.lognres = job.i("hist"); cf.logfile = job.s("log"); cf.write_final_lin_sys = false; cf.cflinit = job.r("cfl"); cf.cflfin = job.r("cflend");
	cf.rampstart = 0; cf.rampend = 10; cf.tol = job.r("tol"); cf.maxiter = job.i("maxiter"); cf.linmaxiterstart = cf.linmaxiterend = 100;
	const std::string kind = job.s("kind");
	std::unique_ptr<SteadySolver<nv>> ss; std::unique_ptr<NonlinearUpdate<nv>> up; KSP ksp = NULL; Mat A = NULL, P = NULL;
	if(kind == "exp") ss.reset(new SteadyForwardEulerSolver<nv>(&sp, u, cf));
	else if(kind == "imp") {
		setupSystemMatrix<nv>(&m, &P);
		if(job.i("mf")) create_matrixfree_jacobian<nv>(&sp, &A);
		KSPCreate(PETSC_COMM_WORLD, &ksp); KSPSetOperators(ksp, A ? A : P, P); KSPSetType(ksp, KSPGMRES); KSPSetTolerances(ksp, A ? 1e-11 : 1e-14, 1e-50, 1e10, 300); KSPGMRESSetRestart(ksp, 200);
		PC pc; KSPGetPC(ksp, &pc); PCSetType(pc, PCBJACOBI); KSPSetFromOptions(ksp);
		if(job.i("relax")) up.reset(new FlowSimpleUpdate<nv>(IdealGasPhysics<freal>(job.r("g"), job.r("M"), job.r("Tinf"), job.r("Re"), job.r("Pr")), job.r("minf")));
		else up.reset(new FullUpdate<nv>());
		ss.reset(new SteadyBackwardEulerSolver<nv>(&sp, cf, ksp, up.get()));
	}
	std::vector<std::vector<double>> hist; int ret = 0; std::string out = "ok";
	try { if(kind == "rk") unsteady<nv>(job, sp, u, ret, hist); else ret = ss->solve(u); }
	catch(const Tolerance_error& e) { out = "tolerance"; }
	catch(const Numerical_error& e) { out = "numerical"; }
	catch(const std::exception& e) { out = std::string("other: ") + e.what(); }
	J j; j.str("event","End").str("out",out).i("ret",ret);
	std::vector<int> gi; std::vector<std::vector<double>> uu(n), ug;
	if(out != "numerical") {
		VecGhostUpdateBegin(u, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(u, INSERT_VALUES, SCATTER_FORWARD);
		ConstGhostedVecHandler<PetscScalar> uh(u); for(fint i = 0; i < n+m.gnConnFace(); i++) { std::vector<double> x(uh.getArray()+i*nv, uh.getArray()+(i+1)*nv); if(i < n) uu[i] = x; else ug.push_back(x); }
	} else for(auto& x : uu) x.assign(nv, 0);
	for(fint i = 0; i < n; i++) gi.push_back(gidx(m,i));
	int steps = -1; bool conv = false;
	if(ss) { const TimingData t = ss->getTimingData(); steps = t.num_timesteps; conv = t.converged; for(auto& h : t.convhis) hist.push_back({(double)h.step, h.rmsres, h.absrmsres, h.cfl}); }
	j.a("gi",gi).a("gh",sp.gh).raw("u",rvv(uu)).raw("ug",rvv(ug)).i("steps",steps).b("conv",conv).raw("hist",rvv(hist));
	int lines = -1; if(kind == "rk" && rank_ == 0) { std::ifstream f(job.s("log")); std::string l; lines = 0; while(std::getline(f,l)) lines++; f.close(); std::remove(job.s("log").c_str()); }
	j.i("lines",lines);
	ev.push_back(j.done());
	ss.reset(); if(ksp) KSPDestroy(&ksp); if(A) MatDestroy(&A); if(P) MatDestroy(&P);
	VecDestroy(&u);
}
/// The record of a result with reals cut to 11 digits, to recognise repetitions with the same result
static std::string rounded(const std::string& s)
{
	std::string o; std::ostringstream x; x.precision(11);
	for(size_t i = 0; i < s.size();) {
		if(s[i] == '"' && i+1 < s.size() && (std::isdigit((unsigned char)s[i+1]) || s[i+1] == '-')) {
			char* e; const double v = std::strtod(&s[i+1], &e); if(*e == '"') { x.str(""); x << v; o += x.str(); i = e+1-&s[0]; continue; }
		}
		o += s[i++];
	}
	return o;
}
/// The same run again and again with several threads: results that differ are further end events of the behaviour
template <int nv> static void repeat(const Job& job, const M& m, std::vector<std::string>& ev)
{
	if(!job.i("rep")) { solve<nv>(job, m, ev); return; }
	const int was = omp_get_max_threads(); omp_set_num_threads(job.i("threads"));
	solve<nv>(job, m, ev); std::set<std::string> seen; if(!ev.empty()) seen.insert(rounded(ev.back()));
	for(int k = 0; k < job.i("rep") && seen.size() < 5; k++) { std::vector<std::string> e; solve<nv>(job, m, e); if(!e.empty() && seen.insert(rounded(e.back())).second) ev.push_back(e.back()); }
	omp_set_num_threads(was);
}
static void run(const Job& job, std::vector<std::string>& ev)
{
	if(job.s("kind") == "omega") {
		J j; j.str("event","Omega"); const auto u = job.rv("u"), du = job.rv("du"); std::string ctor = "ok"; double w = -1;
		const IdealGasPhysics<freal> phy(job.r("g"), job.r("M"), job.r("Tinf"), job.r("Re"), job.r("Pr"));
		try { FlowSimpleUpdate<NVARS> f(phy, job.r("minf")); w = f.getLocalRelaxationFactor(&du[0], &u[0]); } catch(const std::domain_error& e) { ctor = "rejected"; }
		FullUpdate<NVARS> full; j.str("ctor",ctor).raw("w",rs(w)).raw("full",rs(full.getLocalRelaxationFactor(&du[0], &u[0]))); ev.push_back(j.done()); return;
	}
	M gm(readMesh(job.s("file")));
	gm.correctBoundaryFaceOrientation(); gm.compute_topological();
	M m; distributed_ = !job.s("own").empty();
	if(distributed_) { GivenPartitioner p(gm, job.iv("own")); p.compute_partition(); m = p.restrictMeshToPartitions(); m.compute_topological(); }
	else m = gm;
	m.compute_areas(); m.compute_face_data();
	if(job.i("nv") == 1) repeat<1>(job, m, ev); else repeat<NVARS>(job, m, ev);
}
int main(int argc, char** argv)
{
	PetscInitialize(&argc, &argv, NULL, NULL);
	MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &size_);
	{
		const std::vector<Job> jobs = readJobs(argv[1]);
		const std::string sfx = size_ > 1 ? "." + std::to_string(rank_) : "";
		Out out(argv[2] + sfx, rank_ == 0 ? std::string(argv[3]) : std::string("/dev/null"));
		Quiet quiet;
		for(const Job& j : jobs) {
			MPI_Barrier(MPI_COMM_WORLD);
			out.begin(j.id);
			std::vector<std::string> ev; int bad = 0;
			try { run(j, ev); }
			catch(const std::exception& e) { J x; x.str("event","Exception").str("what", e.what()); ev.push_back(x.done()); bad = 1; }
			J l; l.i("id", j.id).raw("ev", J::arrs(ev)); out.line(l.done());
			if(bad && size_ > 1) { std::fprintf(stderr, "exception in job %d: %s\n", j.id, ev.back().c_str()); MPI_Abort(MPI_COMM_WORLD, 9); }
		}
	}
	PetscFinalize();
	return 0;
}
