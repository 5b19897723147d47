// Conformance driver for the mesh: reading, connectivity, geometry, renumbering, orderings, periodicity, writing.
#include "vh.hpp"
#include <petscsys.h>
#include "mesh/mesh.hpp"
#include "mesh/meshreaders.hpp"
#include "mesh/ameshutils.hpp"
#include "mesh/meshordering.hpp"
#include "mesh/details_lineordering.hpp"
#include "mesh/meshpartitioning.hpp"
using namespace fvens; using namespace vh;
typedef UMesh<freal,NDIM> M;
static double SC = 1; // unit of the abstract mesh's coordinates in the file

static std::vector<std::vector<int>> cells(const M& m)
{
	std::vector<std::vector<int>> r(m.gnelem());
	for(fint i = 0; i < m.gnelem(); i++) for(int j = 0; j < m.gnnode(i); j++) r[i].push_back(m.ginpoel(i,j));
	return r;
}
static std::vector<std::vector<int>> bfaces(const M& m)
{
	std::vector<std::vector<int>> r(m.gnbface());
	for(fint i = 0; i < m.gnbface(); i++) for(int j = 0; j < 2+m.gnbtag(); j++) r[i].push_back(m.gbface(i,j));
	return r;
}
static std::vector<std::vector<int>> coords(const M& m)
{
	std::vector<std::vector<int>> r(m.gnpoin());
	for(fint i = 0; i < m.gnpoin(); i++) for(int j = 0; j < 2; j++) r[i].push_back(q(m.gcoords(i,j)/SC,1000));
	return r;
}
static J base(const char* name, const M& m)
{
	J j; j.str("event", name).i("nelem", m.gnelem()).i("npoin", m.gnpoin()).i("nbface", m.gnbface()).i("nbtag", m.gnbtag()).i("ndtag", m.gndtag())
		.aa("cells", cells(m)).aa("bfaces", bfaces(m)).aa("coords", coords(m));
	return j;
}
// region markers are only visible in the written file
static std::vector<std::vector<int>> regions(const M& m, const std::string& tmp, std::string* basic = nullptr)
{
	m.writeGmsh2(tmp);
	std::ifstream f(tmp); std::string w; std::vector<std::vector<int>> r;
	while(f >> w) if(w == "$Elements") break;
	int n = 0; f >> n;
	for(int i = 0; i < n; i++) {
		int id, ty, nt; if(!(f >> id >> ty >> nt)) break;
		std::vector<int> t(nt); for(int k = 0; k < nt; k++) f >> t[k];
		int nn = (ty == 1) ? 2 : (ty == 2) ? 3 : 4;
		for(int k = 0; k < nn; k++) { int d; f >> d; }
		if(ty != 1) { t.resize(std::min<size_t>(nt, m.gndtag())); r.push_back(t); }
	}
	std::remove(tmp.c_str());
	return r;
}
static std::string topo(const M& m)
{
	const fint ne = m.gnelem();
	J j; j.str("event","Topology").i("nelem",ne).i("nbface",m.gnbface()).i("ninface",m.gninface()).i("nconn",m.gnConnFace()).i("naface",m.gnaface()).i("maxnfael",m.gmaxnfael());
	j.a("ranges", std::vector<int>{(int)m.gFaceStart(),(int)m.gFaceEnd(),(int)m.gPhyBFaceStart(),(int)m.gPhyBFaceEnd(),(int)m.gSubDomFaceStart(),(int)m.gSubDomFaceEnd(),
		(int)m.gConnBFaceStart(),(int)m.gConnBFaceEnd(),(int)m.gDomFaceStart(),(int)m.gDomFaceEnd()});
	std::vector<std::vector<int>> fac, ef(ne), es(ne), nodes(ne), pc, tags, qf, qb, qn;
	for(fint f = 0; f < m.gnaface(); f++) { std::vector<int> r; for(int k = 0; k < 4; k++) r.push_back(m.gintfac(f,k)); fac.push_back(r); }
	for(fint i = 0; i < ne; i++) for(int k = 0; k < m.gnfael(i); k++) { ef[i].push_back(m.gelemface(i,k)); es[i].push_back(m.gesuel(i,k)); }
	for(fint p = 0; p < m.gnpoin(); p++) { std::vector<int> r; for(fint k = m.gesup_p(p); k < m.gesup_p(p+1); k++) r.push_back(m.gesup(k)); pc.push_back(r); }
	for(fint f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) { std::vector<int> r; for(int k = 0; k < m.gnbtag(); k++) r.push_back(m.gbtags(f,k)); tags.push_back(r); }
	for(fint f = 0; f < m.gnaface(); f++) {
		std::vector<int> r; r.push_back(m.getFaceEIndex(false, f, m.gintfac(f,0)));
		r.push_back(m.gintfac(f,1) < ne ? m.getFaceEIndex(false, f, m.gintfac(f,1)) : -1); qf.push_back(r);
	}
	for(fint b = 0; b < m.gnbface(); b++) { std::vector<int> r; for(fint i = 0; i < ne; i++) r.push_back(m.getFaceEIndex(true, b, i)); qb.push_back(r); }
	for(fint i = 0; i < ne; i++) { std::vector<int> r; for(int k = 0; k < m.gnfael(i); k++) for(int l = 0; l < 2; l++) r.push_back(m.ginpoel(i, m.getNodeEIndex(i,k,l))); qn.push_back(r); }
	j.aa("intfac",fac).aa("elemface",ef).aa("esuel",es).aa("esup",pc).aa("btags",tags).aa("qface",qf).aa("qbface",qb).aa("qnode",qn);
	return j.done();
}
static std::string geom(const M& m)
{
	J j; j.str("event","Geometry");
	std::vector<int> ar; std::vector<std::vector<int>> met, cen, cen2; double tot = 0;
	for(fint i = 0; i < m.gnelem(); i++) { ar.push_back(q(m.garea(i)/(SC*SC), 2000)); tot += m.garea(i); }
	for(fint f = 0; f < m.gnaface(); f++) {
		const double nx = m.gfacemetric(f,0), ny = m.gfacemetric(f,1), l = m.gfacemetric(f,2)/SC;
		const auto n = m.gnormal(f);
		met.push_back({q(nx*l,1000), q(ny*l,1000), q(l*l,1000), q(nx*nx+ny*ny,1e6), q(n[0]-nx,1e6), q(n[1]-ny,1e6)});
	}
	std::vector<double> c(2*m.gnelem());
	m.compute_cell_centres(c.data());
	for(fint i = 0; i < m.gnelem(); i++) {
		double kc[2]; kernel_computeCellCentreAoS(m, i, kc);
		cen.push_back({q(c[2*i]/SC,12000), q(c[2*i+1]/SC,12000)}); cen2.push_back({q(kc[0]/SC,12000), q(kc[1]/SC,12000)});
	}
	j.a("area2",ar).aa("metric",met).aa("centre",cen).aa("kcentre",cen2);
	return j.done();
}
static std::string linesEv(const LineConfig& lc)
{ J j; j.str("event","Lines").aa("lines",lc.lines).a("celline",lc.celline); return j.done(); }

static void run(const Job& job, std::vector<std::string>& ev)
{
	const std::string file = job.s("file"), tmp = job.s("tmp") + ".tmp.msh";
	const std::string ops = job.s("ops");          // comma separated
	SC = job.has("scale") ? job.r("scale") : 1;
	MeshData md = readMesh(file);
	{   // what the reader itself reports
		J j; j.str("event","ReadData").i("npoin",md.npoin).i("nelem",md.nelem).i("nbface",md.nbface).i("nbtag",md.nbtag).i("ndtag",md.ndtag)
			.i("nnofa",md.nnofa).i("maxnnode",md.maxnnode).i("maxnfael",md.maxnfael);
		std::vector<std::vector<int>> reg(md.nelem);
		for(fint i = 0; i < md.nelem; i++) for(int k = 0; k < md.ndtag; k++) reg[i].push_back(md.vol_regions(i,k));
		j.aa("regions",reg);
		if(job.has("fine")) {
			std::vector<std::vector<int>> fc(md.npoin);
			for(fint i = 0; i < md.npoin; i++) for(int k = 0; k < 2; k++) fc[i].push_back(q(md.coords(i,k)/SC,1e6));
			j.aa("fine", fc);
		}
		ev.push_back(j.done());
	}
	M m(md);
	ev.push_back(base("Read", m).done());
	std::stringstream ss(ops); std::string op;
	while(std::getline(ss, op, ',')) {
		if(op == "orient") { m.correctBoundaryFaceOrientation(); ev.push_back(base("Orient", m).done()); }
		else if(op == "topo") { m.compute_topological(); ev.push_back(topo(m)); }
		else if(op == "geom") { m.compute_areas(); m.compute_face_data(); ev.push_back(geom(m)); }
		else if(op == "restrict") { // the single-process path of the solver
			TrivialReplicatedGlobalMeshPartitioner p(m); p.compute_partition(); M lm = p.restrictMeshToPartitions(); m = lm;
			J j = base("Restrict", m); j.aa("regions", regions(m, tmp)); ev.push_back(j.done());
		}
		else if(op == "perm") {
			std::vector<int> p = job.iv("perm"); std::vector<PetscInt> pp(p.begin(), p.end());
			m.reorder_cells(pp.data());
			J j = base("Renumber", m); j.a("perm", p).aa("regions", regions(m, tmp)); ev.push_back(j.done());
		}
		else if(op.substr(0,5) == "order") {  // through the public pre-processing and the options database
			PetscOptionsSetValue(NULL, "-mesh_reorder", job.s("ordering").c_str());
			PetscOptionsSetValue(NULL, "-mesh_anisotropy_threshold", job.s("thr").c_str());
			preprocessMesh<freal>(m);
			PetscOptionsClearValue(NULL, "-mesh_reorder");
			J j = base("Order", m); j.str("ordering", job.s("ordering")).aa("regions", regions(m, tmp)); ev.push_back(j.done());
			ev.push_back(topo(m)); ev.push_back(geom(m));
		}
		else if(op == "write") {
			m.writeGmsh2(tmp); MeshData d2 = readMesh(tmp); M m2(d2); std::remove(tmp.c_str());
			J j = base("Reread", m2); double dr = 0;
			for(fint i = 0; i < std::min(m.gnpoin(),m2.gnpoin()); i++) for(int k = 0; k < 2; k++) dr = std::max(dr, std::fabs(m.gcoords(i,k)-m2.gcoords(i,k))/SC);
			j.i("drift", q(dr, 1e10));
			std::vector<std::vector<int>> reg(d2.nelem);
			for(fint i = 0; i < d2.nelem; i++) for(int k = 0; k < d2.ndtag; k++) reg[i].push_back(d2.vol_regions(i,k));
			j.aa("regions",reg); ev.push_back(j.done());
		}
		else if(op == "periodic") {
			std::vector<int> before, after, left;
			for(fint f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) { before.push_back(m.gintfac(f,1)); left.push_back(m.gintfac(f,0)); }
			m.compute_periodic_map(job.i("pmark"), job.i("paxis"));
			for(fint f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) after.push_back(m.gintfac(f,1));
			J j; j.str("event","Periodic").i("marker",job.i("pmark")).i("axis",job.i("paxis")).a("before",before).a("after",after).a("left",left);
			ev.push_back(j.done());
		}
		else if(op == "compare") {
			const M o(readMesh(job.s("file2"))), t(readMesh(file));
			auto arr = [](const std::array<bool,8>& a) { std::string r = "["; for(int k = 0; k < 8; k++) r += std::string(k ? "," : "") + (a[k] ? "true" : "false"); return r + "]"; };
			J j; j.str("event","Compare").raw("ab", arr(compareMeshes(m,o))).raw("ba", arr(compareMeshes(o,m))).raw("aa", arr(compareMeshes(m,t))); ev.push_back(j.done());
		}
		else if(op == "levels") {
			std::vector<fint> l = levelSchedule(m);
			J j; j.str("event","Levels").a("levels", l); ev.push_back(j.done());
		}
		else if(op == "lines") ev.push_back(linesEv(findLines(m, job.r("thr"))));
		else if(op == "hybrid") {
			std::vector<fint> o = getHybridLineOrdering(m, job.r("thr"), job.s("gorder").c_str());
			J j; j.str("event","Hybrid").str("gorder",job.s("gorder")).a("perm", o); ev.push_back(j.done());
		}
		else if(op == "linereorder" || op == "hybridreorder") {
			if(op == "linereorder") lineReorder(m, job.r("thr")); else hybridLineReorder(m, job.r("thr"), job.s("gorder").c_str());
			J j = base(op == "linereorder" ? "LineReorder" : "HybridReorder", m); j.str("gorder",job.s("gorder")).aa("regions", regions(m, tmp)); ev.push_back(j.done());
		}
		else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
	}
}
int main(int argc, char** argv)
{
	PetscInitialize(&argc, &argv, NULL, NULL);
	{
		const std::vector<Job> jobs = readJobs(argv[1]);
		Out out(argv[2], argv[3]);
		Quiet quiet; 
		for(const Job& j : jobs) {
			out.begin(j.id);
			std::vector<std::string> ev;
			Job jj = j; jj.kv["tmp"] = std::string(argv[2]) + "." + std::to_string(j.id);
			try { run(jj, ev); }
			catch(const std::exception& e) { J x; x.str("event","Exception").str("what", e.what()); ev.push_back(x.done()); }
			J l; l.i("id", j.id).raw("ev", J::arrs(ev)); out.line(l.done());
		}
	}
	PetscFinalize();
	return 0;
}
