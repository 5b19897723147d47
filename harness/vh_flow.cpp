// Conformance driver for the spatial operators: flow and diffusion residuals, gradients, reconstructions and Jacobians.
// Runs in one process, or under mpirun with a given assignment of cells to processes.
#include "vh_real.hpp"
#include <petscvec.h>
#include <petscmat.h>
#include <memory>
#include "mesh/mesh.hpp"
#include "mesh/meshreaders.hpp"
#include "mesh/meshpartitioning.hpp"
#include "linalg/alinalg.hpp"
#include "linalg/petscutils.hpp"
#include "spatial/flow_spatial.hpp"
#include "spatial/diffusion.hpp"
#include "utilities/afactory.hpp"
#include "spatial/abctypemap.hpp"
#include "spatial/aoutput.hpp"
using namespace fvens; using namespace vh;
typedef UMesh<freal,NDIM> M;
static int rank_, size_;
static bool distributed_ = false;

struct GivenPartitioner : public ReplicatedGlobalMeshPartitioner {
	std::vector<int> own;
	GivenPartitioner(const M& g, const std::vector<int>& o) : ReplicatedGlobalMeshPartitioner(g), own(o) {}
	void compute_partition() { elemdist = own; }
};
static int gidx(const M& m, fint i) { return distributed_ ? m.gglobalElemIndex(i) : i; }
static std::string gindices(const M& m) { std::vector<int> g; for(fint i = 0; i < m.gnelem(); i++) g.push_back(gidx(m,i)); return J::arr(g); }

template <int nv> static Vec stateVec(const M& m, const std::vector<double>& u)
{
	Vec v; createGhostedSystemVector(&m, nv, &v);
	PetscScalar* a; VecGetArray(v, &a);
	for(fint i = 0; i < m.gnelem(); i++) for(int k = 0; k < nv; k++) a[i*nv+k] = u[gidx(m,i)*nv+k];
	VecRestoreArray(v, &a);
	VecGhostUpdateBegin(v, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v, INSERT_VALUES, SCATTER_FORWARD);
	return v;
}
template <int nv> static std::string residual(const M& m, const Spatial<freal,nv>& s, const std::string& name, int si, const std::vector<double>& u, bool dt)
{
	J j; j.str("event", name).i("s", si);
	Vec uv = stateVec<nv>(m, u), r; createGhostedSystemVector(&m, nv, &r); VecZeroEntries(r);
	{ Vec l; VecGhostGetLocalForm(r, &l); VecSet(l, 0); VecGhostRestoreLocalForm(r, &l); }
	Vec d; createSystemVector(&m, 1, &d); VecSet(d, -1);
	const int ierr = s.compute_residual(uv, r, dt, d); if(ierr) throw std::runtime_error("compute_residual failed");
	std::vector<std::vector<double>> rr(m.gnelem()), u2(m.gnelem()); std::vector<double> dd(m.gnelem());
	{ const PetscScalar *a, *b, *c; VecGetArrayRead(r, &a); VecGetArrayRead(d, &b); VecGetArrayRead(uv, &c);
	  for(fint i = 0; i < m.gnelem(); i++) { rr[i].assign(a+i*nv, a+(i+1)*nv); dd[i] = b[i]; u2[i].assign(c+i*nv, c+(i+1)*nv); }
	  VecRestoreArrayRead(r, &a); VecRestoreArrayRead(d, &b); VecRestoreArrayRead(uv, &c); }
	bool same = true; for(fint i = 0; i < m.gnelem(); i++) for(int k = 0; k < nv; k++) same = same && u2[i][k] == u[gidx(m,i)*nv+k];
	j.raw("gi", gindices(m)).raw("r", rvv(rr)).raw("dt", rv(dd)).b("kept", same).b("wantdt", dt);
	VecDestroy(&uv); VecDestroy(&r); VecDestroy(&d);
	return j.done();
}
/// How much x differs from y, in relation to its size, but not to round-off
static double differs(const std::vector<double>& x, const std::vector<double>& y)
{
	if(x.size() != y.size()) return HUGE_VAL;
	double mx = 1e-200, e = 0; for(double v : y) mx = std::max(mx, std::fabs(v));
	for(size_t i = 0; i < x.size(); i++) { const double q = std::fabs(x[i]-y[i])/(std::fabs(y[i]) + 1e-6*mx); if(!(q <= e)) e = q; }
	return e;
}
/// Evaluates many times (with several threads) and returns the evaluation that differs most from the first
template <typename F> static std::vector<double> mostDeviating(int times, F f)
{
	std::vector<double> first, w; double dev = -1;
	for(int t = 0; t < times; t++) {
		const std::vector<double> x = f(); if(t == 0) first = x;
		const double e = differs(x, first);
		if(!(e <= dev)) { dev = e; w = x; }
	}
	return w;
}
/// Evaluates many times (with several threads) and reports the evaluation that differs most from the first
template <int nv> static std::string worst(const M& m, const Spatial<freal,nv>& s, const std::string& name, int si, const std::vector<double>& u, int times)
{
	J j; j.str("event", name).i("s", si);
	Vec uv = stateVec<nv>(m, u), r; createGhostedSystemVector(&m, nv, &r);
	Vec d; createSystemVector(&m, 1, &d);
	std::vector<double> first, w; double dev = -1;
	for(int t = 0; t < times; t++) {
		{ Vec l; VecGhostGetLocalForm(r, &l); VecSet(l, 0); VecGhostRestoreLocalForm(r, &l); }
		const int ierr = s.compute_residual(uv, r, true, d); if(ierr) throw std::runtime_error("compute_residual failed");
		std::vector<double> x; const PetscScalar *a, *b; VecGetArrayRead(r, &a); VecGetArrayRead(d, &b);
		x.assign(a, a+m.gnelem()*nv); x.insert(x.end(), b, b+m.gnelem()); VecRestoreArrayRead(r, &a); VecRestoreArrayRead(d, &b);
		if(t == 0) first = x;
		const double e = differs(x, first);
		if(!(e <= dev)) { dev = e; w = x; }
	}
	std::vector<std::vector<double>> rr(m.gnelem()); for(fint i = 0; i < m.gnelem(); i++) rr[i].assign(&w[i*nv], &w[i*nv]+nv);
	j.raw("gi", gindices(m)).raw("r", rvv(rr)).raw("dt", rv(std::vector<double>(w.begin()+m.gnelem()*nv, w.end()))).b("kept", true).b("wantdt", true).i("of", times);
	VecDestroy(&uv); VecDestroy(&r); VecDestroy(&d);
	return j.done();
}
template <int nv> static std::string gradients(const M& m, const Spatial<freal,nv>& s, const std::string& name, int si, const std::vector<double>& u)
{
	J j; j.str("event", name).i("s", si);
	Vec uv = stateVec<nv>(m, u);
	std::vector<GradBlock_t<freal,NDIM,nv>> g(m.gnelem()+m.gnConnFace());
	s.getGradients(uv, &g[0]);
	std::string o = "[";
	for(fint i = 0; i < m.gnelem(); i++) { std::vector<std::vector<double>> x(2, std::vector<double>(nv)); for(int d = 0; d < 2; d++) for(int k = 0; k < nv; k++) x[d][k] = g[i](d,k); if(i) o += ","; o += rvv(x); }
	j.raw("gi", gindices(m)).raw("g", o + "]");
	VecDestroy(&uv);
	return j.done();
}
template <int nv> static std::string jacobian(const M& m, const Spatial<freal,nv>& s, const std::string& name, int si, const std::vector<double>& u, int times)
{
	J j; j.str("event", name).i("s", si);
	Vec uv = stateVec<nv>(m, u);
	Mat A; if(setupSystemMatrix<nv>(&m, &A)) throw std::runtime_error("setupSystemMatrix failed");
	std::map<std::pair<int,int>, std::vector<double>> blk, far;
	double dev = -1;
	for(int t = 0; t < times; t++) {
		if(t) MatZeroEntries(A);
		const int ierr = s.assemble_jacobian(uv, A); if(ierr) throw std::runtime_error("assemble_jacobian failed");
		MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
		if(t < times-1 && times <= 2) continue;            // (many times: the one that differs most from the first is reported)
		PetscInt lo, hi; MatGetOwnershipRange(A, &lo, &hi);
		std::map<std::pair<int,int>, std::vector<double>> now;
		for(PetscInt i = lo; i < hi; i++) {
			PetscInt n; const PetscInt* c; const PetscScalar* v; MatGetRow(A, i, &n, &c, &v);
			for(PetscInt k = 0; k < n; k++) { auto& b = now[{(int)i/nv,(int)c[k]/nv}]; b.resize(nv*nv); b[(i%nv)*nv + c[k]%nv] = v[k]; }
			MatRestoreRow(A, i, &n, &c, &v);
		}
		if(blk.empty()) blk = far = now;
		std::vector<double> x, y; bool same = now.size() == blk.size();
		for(auto& b : now) { same = same && blk.count(b.first); if(same) { x.insert(x.end(), b.second.begin(), b.second.end()); y.insert(y.end(), blk[b.first].begin(), blk[b.first].end()); } }
		const double e = same ? differs(x, y) : HUGE_VAL;
		if(!(e <= dev)) { dev = e; far = now; }
	}
	blk = far;
	std::string o = "["; bool first = true;
	for(auto& b : blk) { if(!first) o += ","; first = false; o += "[" + std::to_string(b.first.first) + "," + std::to_string(b.first.second) + "," + rm(b.second.data(), nv, nv) + "]"; }
	j.raw("blocks", o + "]").raw("gi", gindices(m));
	MatDestroy(&A); VecDestroy(&uv);
	return j.done();
}
/// What a freshly set up matrix holds after a Jacobian has been assembled into it
template <int nv> static std::string allocation(const M& m, const Spatial<freal,nv>& s, int si, const std::vector<double>& u, const std::string& type)
{
	J j; j.str("event", "Allocation").i("s", si).str("type", type);
	if(!type.empty()) PetscOptionsSetValue(NULL, "-mat_type", type.c_str());
	Mat A; const int err = setupSystemMatrix<nv>(&m, &A); if(!type.empty()) PetscOptionsClearValue(NULL, "-mat_type");
	if(err) throw std::runtime_error("setupSystemMatrix failed");
	Vec uv = stateVec<nv>(m, u);
	for(int t = 0; t < 2; t++) {
		if(t) MatZeroEntries(A);
		if(s.assemble_jacobian(uv, A)) throw std::runtime_error("assemble_jacobian failed");
		MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
	}
	PetscInt lo, hi, M1, N1, bs; MatGetOwnershipRange(A, &lo, &hi); MatGetSize(A, &M1, &N1); MatGetBlockSize(A, &bs);
	MatInfo info; MatGetInfo(A, MAT_LOCAL, &info);
	std::map<std::pair<int,int>, int> blk; std::vector<std::vector<int>> bl;
	for(PetscInt i = lo; i < hi; i++) {
		PetscInt n; const PetscInt* c; MatGetRow(A, i, &n, &c, NULL);
		for(PetscInt k = 0; k < n; k++) blk[{(int)i/nv,(int)c[k]/nv}]++;
		MatRestoreRow(A, i, &n, &c, NULL);
	}
	for(auto& b : blk) bl.push_back({b.first.first, b.first.second, b.second});
	j.aa("blocks", bl).raw("gi", gindices(m)).i("lo", lo).i("hi", hi).i("rows", M1).i("cols", N1).i("bs", bs).i("mallocs", (int)info.mallocs).b("free", isMatrixFree(A));
	MatDestroy(&A); VecDestroy(&uv);
	return j.done();
}
/// y = A x of the matrix-free operator; x is the difference of two states, the time terms are given
template <int nv> static std::string matfree(const M& m, const Spatial<freal,nv>& s, int si, const std::vector<double>& u, const std::vector<double>& x, const std::vector<double>& t, int times)
{
	J j; j.str("event", "MatFree").i("s", si);
	Vec uv = stateVec<nv>(m, u), r, xv, yv, d; createGhostedSystemVector(&m, nv, &r);
	createSystemVector(&m, nv, &xv); createSystemVector(&m, nv, &yv); createSystemVector(&m, 1, &d);
	{ Vec l; VecGhostGetLocalForm(r, &l); VecSet(l, 0); VecGhostRestoreLocalForm(r, &l); }
	if(s.compute_residual(uv, r, false, NULL)) throw std::runtime_error("compute_residual failed");
	VecGhostUpdateBegin(r, ADD_VALUES, SCATTER_REVERSE); VecGhostUpdateEnd(r, ADD_VALUES, SCATTER_REVERSE);
	{ PetscScalar *a, *b; VecGetArray(xv, &a); VecGetArray(d, &b);
	  for(fint i = 0; i < m.gnelem(); i++) { b[i] = t[gidx(m,i)]; for(int k = 0; k < nv; k++) a[i*nv+k] = x[gidx(m,i)*nv+k]; }
	  VecRestoreArray(xv, &a); VecRestoreArray(d, &b); }
	Mat A; if(create_matrixfree_jacobian<nv>(&s, &A)) throw std::runtime_error("create_matrixfree_jacobian failed");
	MatrixFreeSpatialJacobian<nv>* mf; MatShellGetContext(A, (void*)&mf); mf->set_state(uv, r, d);
	PetscInt M1, N1; MatGetSize(A, &M1, &N1);
	for(int k = 0; k < times; k++) { VecSet(yv, 3.25); if(MatMult(A, xv, yv)) throw std::runtime_error("MatMult failed"); }
	std::vector<std::vector<double>> y(m.gnelem()); bool kept = true;
	{ const PetscScalar *a, *b, *c; VecGetArrayRead(yv, &a); VecGetArrayRead(uv, &b); VecGetArrayRead(xv, &c);
	  for(fint i = 0; i < m.gnelem(); i++) { y[i].assign(a+i*nv, a+(i+1)*nv); for(int k = 0; k < nv; k++) kept = kept && b[i*nv+k] == u[gidx(m,i)*nv+k] && c[i*nv+k] == x[gidx(m,i)*nv+k]; }
	  VecRestoreArrayRead(yv, &a); VecRestoreArrayRead(uv, &b); VecRestoreArrayRead(xv, &c); }
	j.raw("gi", gindices(m)).raw("y", rvv(y)).b("kept", kept).i("rows", M1).i("cols", N1).b("free", isMatrixFree(A));
	MatDestroy(&A); VecDestroy(&uv); VecDestroy(&r); VecDestroy(&xv); VecDestroy(&yv); VecDestroy(&d);
	return j.done();
}
/// Wall quantities and forces, one event per marker
static void surface(const M& m, const FlowFV_base<freal>& s, int si, const std::vector<double>& u, const std::vector<int>& markers, std::vector<std::string>& ev)
{
	for(int mk : markers) {
		J j; j.str("event", "Surface").i("s", si).i("marker", mk);
		Vec uv = stateVec<NVARS>(m, u);
		std::vector<GradBlock_t<freal,NDIM,NVARS>> g(m.gnelem()+m.gnConnFace()); s.getGradients(uv, &g[0]);
		MVector<freal> o; o.resize(std::max<fint>(1,m.gnbface()), NDIM+2); o.setConstant(-99.5);
		freal cl, cdp, cdf;
		{ ConstVecHandler<freal> uh(uv); std::tie(cl, cdp, cdf) = s.computeSurfaceData(amat::Array2dView<freal>(uh.getArray(), m.gnelem(), NVARS), &g[0], mk, o); }
		std::vector<std::vector<double>> rows;
		for(fint i = 0; i < o.rows(); i++) if(o(i,0) != -99.5 || o(i,2) != -99.5) rows.push_back({o(i,0), o(i,1), o(i,2), o(i,3)});
		j.raw("rows", rvv(rows)).raw("f", rv({cl, cdp, cdf}));
		VecDestroy(&uv);
		ev.push_back(j.done());
	}
}
static std::string table(const amat::Array2d<freal>& a, fint n, int c) { std::vector<std::vector<double>> v(n, std::vector<double>(c)); for(fint i = 0; i < n; i++) for(int k = 0; k < c; k++) v[i][k] = a.get(i,k); return rvv(v); }
static void outputs(const M& m, const FlowFV_base<freal>& s, const FlowPhysicsConfig& pc, char what, int si, const std::vector<double>& u, const Job& job, std::vector<std::string>& ev)
{
	const IdealGasPhysics<freal> phy(pc.gamma, pc.Minf, pc.Tinf, pc.Reinf, pc.Pr);
	const FlowOutput out(&s, &phy, pc.aoa);
	Vec uv = stateVec<NVARS>(m, u);
	J j; amat::Array2d<freal> sc, ve;
	if(what == 'e') j.str("event", "Entropy").i("s", si).raw("err", rs(out.compute_entropy_cell(uv)));
	else if(what == 'p') { out.postprocess_point(uv, sc, ve); j.str("event", "Points").i("s", si).raw("sc", table(sc, m.gnpoin(), 4)).raw("ve", table(ve, m.gnpoin(), 2)); }
	else if(what == 'c') { out.postprocess_cell(uv, sc, ve); j.str("event", "CellValues").i("s", si).raw("sc", table(sc, m.gnelem(), 3)).raw("ve", table(ve, m.gnelem(), 2)); }
	else {
		const std::string base = job.s("out") + "s" + std::to_string(si);
		MVector<freal> um; um.resize(m.gnelem(), NVARS); for(fint i = 0; i < m.gnelem(); i++) for(int k = 0; k < NVARS; k++) um(i,k) = u[gidx(m,i)*NVARS+k];
		out.exportVolumeData(um, base);
		out.exportSurfaceData(uv, job.iv("walls"), job.iv("others"), base);
		std::string pn[] = {"density", "mach-number", "pressure", "temperature"}, cn[] = {"density", "mach-number", "pressure"};
		out.postprocess_point(uv, sc, ve); writeScalarsVectorToVtu_PointData(base + "-p.vtu", m, sc, pn, ve, "velocity");
		out.postprocess_cell(uv, sc, ve); writeScalarsVectorToVtu_CellData(base + "-c.vtu", m, sc, cn, ve, "velocity");
		writeMeshToVtu(base + "-m.vtu", m);
		j.str("event", "Files").i("s", si).str("out", base);
	}
	VecDestroy(&uv);
	ev.push_back(j.done());
}
template <int nv> static void schemes(const M& m, const Job& job, std::vector<std::string>& ev)
{
	const std::vector<double> w = job.rv("w"), wgv = job.rv("wgv"), grv = job.rv("gr"); const std::vector<int> wge = job.iv("wge");
	std::vector<double> rc(m.gnelem()*NDIM), rb(std::max<fint>(1,m.gnbface())*NDIM);
	m.compute_cell_centres(rc.data());
	amat::Array2d<freal> mid(m.gnaface(), NDIM), ug(m.gnbface(), nv);
	for(fint f = m.gFaceStart(); f < m.gFaceEnd(); f++) for(int d = 0; d < NDIM; d++) mid(f,d) = 0.5*(m.gcoords(m.gintfac(f,2),d) + m.gcoords(m.gintfac(f,3),d));
	for(fint f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) {
		const int k = f - m.gPhyBFaceStart(); for(int d = 0; d < NDIM; d++) rb[k*NDIM+d] = 2*mid(f,d) - rc[m.gintfac(f,0)*NDIM+d];
		const int a = std::min(m.gintfac(f,2), m.gintfac(f,3)), b = std::max(m.gintfac(f,2), m.gintfac(f,3));
		for(size_t e = 0; e < wge.size()/2; e++) if(std::min(wge[2*e],wge[2*e+1]) == a && std::max(wge[2*e],wge[2*e+1]) == b) for(int v = 0; v < nv; v++) ug(k,v) = wgv[e*nv+v];
	}
	MVector<freal> u(m.gnelem(), nv); for(fint i = 0; i < m.gnelem(); i++) for(int k = 0; k < nv; k++) u(i,k) = w[i*nv+k];
	const amat::Array2dView<freal> ugv(&ug(0,0), m.gnbface(), nv);
	std::stringstream ss(job.s("ops")); std::string op;
	while(std::getline(ss, op, ',')) {
		const std::string name = op.substr(2);
		if(op[0] == 'g') {
			std::unique_ptr<const GradientScheme<freal,nv>> g(create_const_gradientscheme<freal,nv>(name, &m, rc.data(), rb.data()));
			std::vector<GradBlock_t<freal,NDIM,nv>> gr(m.gnelem());
			const std::vector<double> gw = mostDeviating(job.i("times",1), [&]() {
				for(auto& x : gr) x.setConstant(7.5);
				g->compute_gradients(amat::Array2dView<freal>(&u(0,0), m.gnelem(), nv), ugv, &gr[0](0,0));
				return std::vector<double>(gr[0].data(), gr[0].data() + m.gnelem()*NDIM*nv); });
			std::copy(gw.begin(), gw.end(), gr[0].data());
			std::string o = "[";
			for(fint i = 0; i < m.gnelem(); i++) { std::vector<std::vector<double>> x(2, std::vector<double>(nv)); for(int d = 0; d < 2; d++) for(int k = 0; k < nv; k++) x[d][k] = gr[i](d,k); if(i) o += ","; o += rvv(x); }
			J j; j.str("event","Gradients").str("name",name).raw("g", o + "]"); ev.push_back(j.done());
		} else {
			std::vector<GradBlock_t<freal,NDIM,nv>> gr(m.gnelem());
			for(fint i = 0; i < m.gnelem(); i++) for(int d = 0; d < 2; d++) for(int k = 0; k < nv; k++) gr[i](d,k) = grv[(i*2+d)*nv+k];
			std::unique_ptr<const SolutionReconstruction<freal,nv>> r(create_const_reconstruction<freal,nv>(name, &m, rc.data(), rb.data(), mid, job.r("par")));
			amat::Array2d<freal> l(m.gnaface(), nv), q(m.gnaface(), nv);
			const std::vector<double> fw = mostDeviating(job.i("times",1), [&]() {
				for(fint f = 0; f < m.gnaface(); f++) for(int k = 0; k < nv; k++) l(f,k) = q(f,k) = -99.5;
				r->compute_face_values(u, ugv, &gr[0](0,0), amat::Array2dMutableView<freal>(&l(0,0), m.gnaface(), nv), amat::Array2dMutableView<freal>(&q(0,0), m.gnaface(), nv));
				std::vector<double> x(&l(0,0), &l(0,0) + m.gnaface()*nv); x.insert(x.end(), &q(0,0), &q(0,0) + m.gnaface()*nv); return x; });
			std::copy(fw.begin(), fw.begin() + m.gnaface()*nv, &l(0,0)); std::copy(fw.begin() + m.gnaface()*nv, fw.end(), &q(0,0));
			std::vector<std::vector<int>> fc; std::vector<std::vector<double>> ul, ur;
			for(fint f = m.gFaceStart(); f < m.gFaceEnd(); f++) { fc.push_back({(int)m.gintfac(f,2), (int)m.gintfac(f,3), (int)m.gintfac(f,0)});
				ul.push_back(std::vector<double>(&l(f,0), &l(f,0)+nv)); ur.push_back(std::vector<double>(&q(f,0), &q(f,0)+nv)); }
			J j; j.str("event","Recon").str("name",name).aa("faces",fc).raw("ul", rvv(ul)).raw("ur", rvv(ur)); ev.push_back(j.done());
		}
	}
}
static void run(const Job& job, std::vector<std::string>& ev)
{
	M gm(readMesh(job.s("file")));
	gm.correctBoundaryFaceOrientation(); gm.compute_topological();
	M m; distributed_ = !job.s("own").empty();
	if(!job.s("own").empty()) { GivenPartitioner p(gm, job.iv("own")); p.compute_partition(); m = p.restrictMeshToPartitions(); m.compute_topological(); }
	else m = gm;
	m.compute_areas(); m.compute_face_data();
	const std::string kind = job.s("kind");
	if(kind == "update") {
		FlowParserOptions o{}; o.gamma = job.r("g"); o.Minf = job.r("M"); o.Tinf = job.r("Tinf"); o.Reinf = job.r("Re"); o.Pr = job.r("Pr"); o.min_nl_update = job.r("minf"); o.nl_update_scheme = job.s("update");
		const auto x = job.rv("uu"), dx = job.rv("duu");
		std::unique_ptr<const NonlinearUpdate<NVARS>> n(create_const_nonlinearUpdateScheme<NVARS>(o));
		J j; j.str("event", "Update").str("name", job.s("update")).raw("w", rs(n->getLocalRelaxationFactor(&dx[0], &x[0]))); ev.push_back(j.done()); return;
	}
	if(kind == "scheme") { if(job.i("nv") == 1) schemes<1>(m, job, ev); else schemes<NVARS>(m, job, ev); return; }
	std::vector<std::vector<double>> u; for(int k = 0; k < job.i("ns"); k++) u.push_back(job.rv("u" + std::to_string(k)));
	if(kind == "flow") {
		FlowPhysicsConfig pc; pc.gamma = job.r("g"); pc.Minf = job.r("M"); pc.Tinf = job.r("Tinf"); pc.Reinf = job.r("Re"); pc.Pr = job.r("Pr"); pc.aoa = job.r("aoa");
		pc.viscous_sim = job.i("visc"); pc.const_visc = job.i("cvisc");
		const auto ty = job.iv("bctypes"), tg = job.iv("bctags"); const auto vals = job.rv("bcvals");
		std::vector<std::string> bn; { std::stringstream ss(job.s("bcnames")); std::string x; while(std::getline(ss, x, ',')) bn.push_back(x); }
		for(size_t k = 0; k < ty.size(); k++) if(bn.size() > k) pc.bcconf.push_back(FlowBCConfig{tg[k], bcTypeMap.right.at(bn[k]), {vals[2*k], vals[2*k+1]}, {}});
		else pc.bcconf.push_back(FlowBCConfig{tg[k], static_cast<BCType>(ty[k]), {vals[2*k], vals[2*k+1]}, {}});
		FlowNumericsConfig nc; nc.conv_numflux = job.s("flux"); nc.conv_numflux_jac = job.s("jflux"); nc.gradientscheme = job.s("grad"); nc.reconstruction = job.s("recon");
		nc.limiter_param = job.r("par"); nc.order2 = job.i("order2");
		std::unique_ptr<const FlowFV_base<freal>> s(create_const_flowSpatialDiscretization<freal>(&m, pc, nc));
		std::stringstream ss(job.s("ops")); std::string op;
		while(std::getline(ss, op, ',')) {
			const int k = op[1] - '0';
			if(op[0] == 'r') ev.push_back(residual<NVARS>(m, *s, "Residual", k, u[k], true));
			else if(op[0] == 'w') ev.push_back(worst<NVARS>(m, *s, "Residual", k, u[k], job.i("times",200)));
			else if(op[0] == 'n') ev.push_back(residual<NVARS>(m, *s, "Residual", k, u[k], false));
			else if(op[0] == 'g') ev.push_back(gradients<NVARS>(m, *s, "StateGradients", k, u[k]));
			else if(op[0] == 'j') ev.push_back(jacobian<NVARS>(m, *s, "Jacobian", k, u[k], op.size() > 2 ? 2 : job.i("times",1)));
			else if(op[0] == 'm') ev.push_back(matfree<NVARS>(m, *s, k, u[k], job.rv("x"), job.rv("t"), op.size() > 2 ? 2 : 1));
			else if(op[0] == 's') surface(m, *s, k, u[k], job.iv("walls"), ev);
			else if(strchr("epco", op[0])) outputs(m, *s, pc, op[0], k, u[k], job, ev);
			else if(op[0] == 'a') ev.push_back(allocation<NVARS>(m, *s, k, u[k], op.size() > 2 ? op.substr(2) : ""));
		}
	} else {
		const auto c = job.rv("c");
		auto src = [c](const freal *const x, const freal t, const freal *const u, freal *const out) { out[0] = c[0] + c[1]*x[0] + c[2]*u[0]; };
		DiffusionMA<1> s(&m, job.r("nu"), job.r("b"), src, job.s("grad"));
		std::stringstream ss(job.s("ops")); std::string op;
		while(std::getline(ss, op, ',')) {
			const int k = op[1] - '0';
			if(op[0] == 'r') ev.push_back(residual<1>(m, s, "Diffusion", k, u[k], true));
			else if(op[0] == 'w') ev.push_back(worst<1>(m, s, "Diffusion", k, u[k], job.i("times",200)));
			else if(op[0] == 'g') ev.push_back(gradients<1>(m, s, "DiffusionGradients", k, u[k]));
			else if(op[0] == 'j') ev.push_back(jacobian<1>(m, s, "DiffusionJacobian", k, u[k], job.i("times",1)));
			else if(op[0] == 'm') ev.push_back(matfree<1>(m, s, k, u[k], job.rv("x"), job.rv("t"), op.size() > 2 ? 2 : 1));
			else if(op[0] == 'p') { Vec uv = stateVec<1>(m, u[k]); amat::Array2d<freal> up; scalar_postprocess_point<1>(&m, uv, up);
				J j; j.str("event", "ScalarPoints").i("s", k).raw("v", table(up, m.gnpoin(), 1)); ev.push_back(j.done()); VecDestroy(&uv); }
			else if(op[0] == 'a') ev.push_back(allocation<1>(m, s, k, u[k], op.size() > 2 ? op.substr(2) : ""));
		}
	}
}
int main(int argc, char** argv)
{
	PetscInitialize(&argc, &argv, NULL, NULL);
	MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &size_);
	{
		const std::vector<Job> jobs = readJobs(argv[1]);
		const std::string sfx = size_ > 1 ? "." + std::to_string(rank_) : "";
		Out out(argv[2] + sfx, rank_ == 0 ? std::string(argv[3]) : std::string("/dev/null"));
		Quiet quiet;
		for(const Job& j : jobs) {
			MPI_Barrier(MPI_COMM_WORLD);
			out.begin(j.id);
			std::vector<std::string> ev; int bad = 0;
			try { run(j, ev); }
			catch(const std::exception& e) { J x; x.str("event","Exception").str("what", e.what()); ev.push_back(x.done()); bad = 1; }
			J l; l.i("id", j.id).raw("ev", J::arrs(ev)); out.line(l.done());
			if(bad && size_ > 1) { std::fprintf(stderr, "exception in job %d: %s\n", j.id, ev.back().c_str()); MPI_Abort(MPI_COMM_WORLD, 9); }
		}
	}
	PetscFinalize();
	return 0;
}
