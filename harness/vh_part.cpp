// Conformance driver for mesh distribution, trace-vector exchange and ghosted vectors. Run under mpirun.
#include "vh_mpi.hpp"
#include "vh.hpp"
#include <petscvec.h>
#include <petscmat.h>
#include "mesh/mesh.hpp"
#include "mesh/meshreaders.hpp"
#include "mesh/meshpartitioning.hpp"
#include "linalg/tracevector.hpp"
#include "linalg/alinalg.hpp"
#include "linalg/petscutils.hpp"
using namespace fvens; using namespace vh;
typedef UMesh<freal,NDIM> M;
static int rank_, size_;

struct GivenPartitioner : public ReplicatedGlobalMeshPartitioner {
	std::vector<int> own;
	GivenPartitioner(const M& g, const std::vector<int>& o) : ReplicatedGlobalMeshPartitioner(g), own(o) {}
	void compute_partition() { elemdist = own; }
	const std::vector<int>& dist() const { return elemdist; }
};
struct TrivialP : public TrivialReplicatedGlobalMeshPartitioner { TrivialP(const M& g) : TrivialReplicatedGlobalMeshPartitioner(g) {} const std::vector<int>& dist() const { return elemdist; } };
struct ScotchP : public ScotchRGMPartitioner { ScotchP(const M& g) : ScotchRGMPartitioner(g) {} const std::vector<int>& dist() const { return elemdist; } };

static std::string subdomain(const M& m, const std::vector<int>& dist, const std::string& tmp)
{
	J j; j.str("event","Distribute").a("dist",dist).i("nelem",m.gnelem()).i("npoin",m.gnpoin()).i("nbface",m.gnbface()).i("nelemglobal",m.gnelemglobal()).i("npoinglobal",m.gnpoinglobal());
	std::vector<std::vector<int>> c(m.gnelem()), b, p, cf, reg; std::vector<int> gi;
	for(fint i = 0; i < m.gnelem(); i++) { for(int k = 0; k < m.gnnode(i); k++) c[i].push_back(m.ginpoel(i,k)); gi.push_back(m.gglobalElemIndex(i)); }
	for(fint i = 0; i < m.gnbface(); i++) { std::vector<int> r; for(int k = 0; k < 2+m.gnbtag(); k++) r.push_back(m.gbface(i,k)); b.push_back(r); }
	for(fint i = 0; i < m.gnpoin(); i++) p.push_back({q(m.gcoords(i,0),1), q(m.gcoords(i,1),1)});
	for(fint i = 0; i < m.gnConnFace(); i++) { std::vector<int> r; for(int k = 0; k < 5; k++) r.push_back(m.gconnface(i,k)); cf.push_back(r); }
	m.writeGmsh2(tmp);
	{ std::ifstream f(tmp); std::string w; while(f >> w) if(w == "$Elements") break; int n = 0; f >> n;
	  for(int i = 0; i < n; i++) { int id, ty, nt; if(!(f >> id >> ty >> nt)) break; std::vector<int> t(nt); for(int k = 0; k < nt; k++) f >> t[k];
		int nn = ty == 1 ? 2 : ty == 2 ? 3 : 4; for(int k = 0; k < nn; k++) { int d; f >> d; } if(ty != 1) { t.resize(std::min<size_t>(nt,m.gndtag())); reg.push_back(t); } } }
	std::remove(tmp.c_str());
	j.aa("cells",c).aa("bfaces",b).aa("coords",p).aa("conn",cf).a("gindex",gi).aa("regions",reg).a("conng",m.getConnectivityGlobalIndices());
	return j.done();
}
static std::string topo(const M& m)
{
	J j; j.str("event","Topology").i("nelem",m.gnelem()).i("nbface",m.gnbface()).i("ninface",m.gninface()).i("nconn",m.gnConnFace()).i("naface",m.gnaface());
	j.a("ranges", std::vector<int>{(int)m.gFaceStart(),(int)m.gFaceEnd(),(int)m.gPhyBFaceStart(),(int)m.gPhyBFaceEnd(),(int)m.gSubDomFaceStart(),(int)m.gSubDomFaceEnd(),
		(int)m.gConnBFaceStart(),(int)m.gConnBFaceEnd(),(int)m.gDomFaceStart(),(int)m.gDomFaceEnd()});
	std::vector<std::vector<int>> fac, ef(m.gnelem()), es(m.gnelem()), met, tags;
	for(fint f = 0; f < m.gnaface(); f++) { std::vector<int> r; for(int k = 0; k < 4; k++) r.push_back(m.gintfac(f,k)); fac.push_back(r);
		const double l = m.gfacemetric(f,2); met.push_back({q(m.gfacemetric(f,0)*l,1000), q(m.gfacemetric(f,1)*l,1000)}); }
	for(fint i = 0; i < m.gnelem(); i++) for(int k = 0; k < m.gnfael(i); k++) { ef[i].push_back(m.gelemface(i,k)); es[i].push_back(m.gesuel(i,k)); }
	for(fint f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) { std::vector<int> r; for(int k = 0; k < m.gnbtag(); k++) r.push_back(m.gbtags(f,k)); tags.push_back(r); }
	j.aa("intfac",fac).aa("elemface",ef).aa("esuel",es).aa("metric",met).aa("btags",tags);
	return j.done();
}
// value written on the near side: rank, own face position, round and variable are all recoverable
static int code(int rank, int pos, int round, int var, int vec) { return (((rank*400 + pos)*16 + round)*8 + var)*2 + vec; }

template <int nv> static void fillLeft(const M& m, L2TraceVector<freal,nv>& t, int round, int vec)
{ freal* l = t.getLocalArrayLeft(); for(fint f = m.gFaceStart(); f < m.gFaceEnd(); f++) for(int v = 0; v < nv; v++) l[f*nv+v] = code(rank_, f, round, v, vec); }
template <int nv> static void fillRight(const M& m, L2TraceVector<freal,nv>& t, int round, int vec)
{ freal* r = t.getLocalArrayRight(); for(fint f = m.gFaceStart(); f < m.gFaceEnd(); f++) for(int v = 0; v < nv; v++) r[f*nv+v] = -1 - code(rank_, f, round, v, vec); }
template <int nv> static std::vector<std::vector<int>> view(const M& m, const freal* a)
{ std::vector<std::vector<int>> r; for(fint f = 0; f < m.gnaface(); f++) { std::vector<int> x; for(int v = 0; v < nv; v++) x.push_back(q(a[f*nv+v],1)); r.push_back(x); } return r; }

template <int nv> static void exchange(const M& m, const Job& job, std::vector<std::string>& ev)
{
	auto& A = adv(); A.rng.seed(job.i("seed") * 131 + rank_); A.maxdelay = job.i("delay"); A.lazy = job.i("lazy");
	const int slow = job.i("slow", -1);                // one rank may lag behind
	A.on = job.i("adv", 1) != 0;
	{
		L2TraceVector<freal,nv> ta(m), tb(m);
		A.reset();
		const int rounds = job.i("rounds", 3); const bool two = job.i("two", 0);
		for(int k = 1; k <= rounds; k++) {
			fillLeft<nv>(m, ta, k, 0); fillRight<nv>(m, ta, k, 0);
			if(two) { fillLeft<nv>(m, tb, k, 1); fillRight<nv>(m, tb, k, 1); }
			if(slow == rank_) usleep(job.i("lag", 3000));
			ta.updateSharedFacesBegin();
			if(two) tb.updateSharedFacesBegin();
			A.delay();
			ta.updateSharedFacesEnd();
			std::vector<std::vector<int>> ra = view<nv>(m, ta.getLocalArrayRight()), la = view<nv>(m, ta.getLocalArrayLeft()), rb, lb;
			// overwrite at once: whatever is still in flight must not see it
			fillLeft<nv>(m, ta, 15, 0);
			if(two) { tb.updateSharedFacesEnd(); rb = view<nv>(m, tb.getLocalArrayRight()); lb = view<nv>(m, tb.getLocalArrayLeft()); }
			J j; j.str("event","Exchange").i("round",k).aa("left",la).aa("right",ra).aa("left2",lb).aa("right2",rb).i("nv",nv).i("two",two);
			ev.push_back(j.done());
		}
	}
	A.flush(); A.on = false;
	MPI_Barrier(MPI_COMM_WORLD);
}
template <int nv> static void ghosts(const M& m, const Job& job, std::vector<std::string>& ev)
{
	J j; j.str("event","Ghosts").i("nv",nv);
	Vec v; createGhostedSystemVector(&m, nv, &v);
	PetscInt lo, hi, ls, gs; VecGetOwnershipRange(v, &lo, &hi); VecGetLocalSize(v, &ls); VecGetSize(v, &gs);
	j.a("range", std::vector<int>{(int)lo,(int)hi,(int)ls,(int)gs});
	PetscScalar* a; VecGetArray(v, &a);
	for(fint i = 0; i < m.gnelem(); i++) for(int k = 0; k < nv; k++) a[i*nv+k] = 1000 + m.gglobalElemIndex(i)*10 + k;
	VecRestoreArray(v, &a);
	VecGhostUpdateBegin(v, INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v, INSERT_VALUES, SCATTER_FORWARD);
	Vec l; VecGhostGetLocalForm(v, &l); PetscInt lsz; VecGetLocalSize(l, &lsz);
	const PetscScalar* r; VecGetArrayRead(l, &r);
	std::vector<std::vector<int>> own, gh;
	for(fint i = 0; i < lsz/nv; i++) { std::vector<int> x; for(int k = 0; k < nv; k++) x.push_back(q(r[i*nv+k],1)); (i < m.gnelem() ? own : gh).push_back(x); }
	VecRestoreArrayRead(l, &r); VecGhostRestoreLocalForm(v, &l);
	// reverse accumulation: every ghost slot contributes once to its owner
	{
		MutableGhostedVecHandler<PetscScalar> h(v); PetscScalar* p = h.getArray();
		for(fint i = 0; i < m.gnelem()*nv; i++) p[i] = 0;
		for(fint i = m.gnelem()*nv; i < (m.gnelem()+m.gnConnFace())*nv; i++) p[i] = 1 + (i % nv);
	}
	VecGhostUpdateBegin(v, ADD_VALUES, SCATTER_REVERSE); VecGhostUpdateEnd(v, ADD_VALUES, SCATTER_REVERSE);
	std::vector<std::vector<int>> acc;
	{ ConstVecHandler<PetscScalar> h(v); const PetscScalar* p = h.getArray(); for(fint i = 0; i < m.gnelem(); i++) { std::vector<int> x; for(int k = 0; k < nv; k++) x.push_back(q(p[i*nv+k],1)); acc.push_back(x); } }
	j.aa("own",own).aa("ghost",gh).aa("acc",acc);
	VecDestroy(&v);
	Vec s; createSystemVector(&m, nv, &s); VecGetOwnershipRange(s, &lo, &hi); VecGetLocalSize(s, &ls); VecGetSize(s, &gs); VecDestroy(&s);
	j.a("srange", std::vector<int>{(int)lo,(int)hi,(int)ls,(int)gs});
	Mat A; setupSystemMatrix<nv>(&m, &A); PetscInt rl, rh, mm, nn, bs; MatGetOwnershipRange(A, &rl, &rh); MatGetSize(A, &mm, &nn); MatGetBlockSize(A, &bs);
	j.a("mrange", std::vector<int>{(int)rl,(int)rh,(int)mm,(int)nn,(int)bs}); MatDestroy(&A);
	ev.push_back(j.done());
}
static void run(const Job& job, std::vector<std::string>& ev)
{
	M gm(readMesh(job.s("file")));
	gm.correctBoundaryFaceOrientation(); gm.compute_topological();
	const std::string how = job.s("part"); std::vector<int> dist; M m;
	if(how == "trivial") { TrivialP p(gm); p.compute_partition(); m = p.restrictMeshToPartitions(); dist = p.dist(); }
	else if(how == "scotch") { ScotchP p(gm); p.compute_partition(); m = p.restrictMeshToPartitions(); dist = p.dist(); }
	else { GivenPartitioner p(gm, job.iv("own")); p.compute_partition(); m = p.restrictMeshToPartitions(); dist = p.dist(); }
	ev.push_back(subdomain(m, dist, job.s("tmp")));
	m.compute_topological(); m.compute_areas(); m.compute_face_data();
	ev.push_back(topo(m));
	std::stringstream ss(job.s("ops")); std::string op;
	while(std::getline(ss, op, ',')) {
		if(op == "xchg1") exchange<1>(m, job, ev);
		else if(op == "xchg4") exchange<NVARS>(m, job, ev);
		else if(op == "ghost1") ghosts<1>(m, job, ev);
		else if(op == "ghost4") ghosts<NVARS>(m, job, ev);
	}
}
int main(int argc, char** argv)
{
	PetscInitialize(&argc, &argv, NULL, NULL);
	MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &size_);
	{
		const std::vector<Job> jobs = readJobs(argv[1]);
		const std::string sfx = size_ > 1 ? "." + std::to_string(rank_) : "";
		Out out(argv[2] + sfx, rank_ == 0 ? std::string(argv[3]) : std::string("/dev/null"));
		Quiet quiet;
		for(const Job& j : jobs) {
			MPI_Barrier(MPI_COMM_WORLD);
			out.begin(j.id);
			std::vector<std::string> ev;
			Job jj = j; jj.kv["tmp"] = std::string(argv[2]) + ".t" + std::to_string(rank_);
			int bad = 0;
			try { run(jj, ev); }
			catch(const std::exception& e) { J x; x.str("event","Exception").str("what", e.what()); ev.push_back(x.done()); bad = 1; }
			J l; l.i("id", j.id).raw("ev", J::arrs(ev)); out.line(l.done());
			if(bad) { std::fprintf(stderr, "exception in job %d: %s\n", j.id, ev.back().c_str()); MPI_Abort(MPI_COMM_WORLD, 9); }
		}
	}
	PetscFinalize();
	return 0;
}
