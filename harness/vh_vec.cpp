// Conformance driver for the vector handlers: a sequence of operations on up to three handlers and two vectors.
#include "vh.hpp"
#include <petscvec.h>
#include <memory>
#include <sstream>
#include "aconstants.hpp"
#include "linalg/petscutils.hpp"
extern "C" PetscErrorCode PetscObjectStateGet(PetscObject, PetscObjectState*);
using namespace fvens; using namespace vh;
static int rank_, size_;
static const int N = 3;
struct Slot {
	std::string kind; std::unique_ptr<MutableVecHandler<freal>> m; std::unique_ptr<ConstVecHandler<freal>> c;
	std::unique_ptr<MutableGhostedVecHandler<freal>> gm; std::unique_ptr<ConstGhostedVecHandler<freal>> gc;
	bool any() const { return m || c || gm || gc; }
	const freal* array() { return m ? m->getArray() : c ? c->getArray() : gm ? gm->getArray() : gc->getArray(); }
	freal* warray() { return m ? m->getArray() : gm->getArray(); }
	void make(const std::string& k) { kind = k; if(k == "M") m.reset(new MutableVecHandler<freal>()); else if(k == "C") c.reset(new ConstVecHandler<freal>()); else if(k == "GM") gm.reset(new MutableGhostedVecHandler<freal>()); else gc.reset(new ConstGhostedVecHandler<freal>()); }
	void make(const std::string& k, Vec v) { kind = k; if(k == "M") m.reset(new MutableVecHandler<freal>(v)); else if(k == "C") c.reset(new ConstVecHandler<freal>(v)); else if(k == "GM") gm.reset(new MutableGhostedVecHandler<freal>(v)); else gc.reset(new ConstGhostedVecHandler<freal>(v)); }
	void set(Vec v) { if(m) m->setVec(v); else if(c) c->setVec(v); else if(gm) gm->setVec(v); else gc->setVec(v); }
	void restore() { if(m) m->restore(); else if(c) c->restore(); else if(gm) gm->restore(); else gc->restore(); }
	void del() { m.reset(); c.reset(); gm.reset(); gc.reset(); }
};
static int refs(Vec v) { Vec l; VecGhostGetLocalForm(v, &l); PetscInt n; PetscObjectGetReference((PetscObject)l, &n); VecGhostRestoreLocalForm(v, &l); return (int)n; }
static void run(const Job& job, std::vector<std::string>& ev)
{
	Vec v[2]; const PetscInt next = ((rank_+1)%size_)*N;
	VecCreateGhost(PETSC_COMM_WORLD, N, PETSC_DETERMINE, size_ > 1 ? 1 : 0, &next, &v[0]);
	VecCreateMPI(PETSC_COMM_WORLD, N, PETSC_DETERMINE, &v[1]);
	for(int k = 0; k < 2; k++) { PetscScalar* a; VecGetArray(v[k], &a); for(int i = 0; i < N; i++) a[i] = 10*rank_ + 100*(k+1) + i + 1; VecRestoreArray(v[k], &a); }
	VecGhostUpdateBegin(v[0], INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v[0], INSERT_VALUES, SCATTER_FORWARD);
	const int base = refs(v[0]);
	Slot sl[3]; std::map<int,int> att;
	std::stringstream ss(job.s("ops")); std::string op;
	while(std::getline(ss, op, ',')) {
		std::stringstream os(op); std::string f[6]; for(auto& x : f) std::getline(os, x, ':');
		const int s = std::stoi(f[1])-1, k = std::stoi(f[3])-1, i = std::stoi(f[4])-1, x = std::stoi(f[5]);
		PetscObjectState a[2], b[2]; for(int q = 0; q < 2; q++) PetscObjectStateGet((PetscObject)v[q], &a[q]);
		bool thrown = false; std::vector<int> vals; PetscReal norm = 0;
		try {
			if(f[0] == "new") sl[s].make(f[2]);
			else if(f[0] == "newv") { sl[s].make(f[2], v[k]); att[s] = k; }
			else if(f[0] == "set") { sl[s].set(v[k]); att[s] = k; }
			else if(f[0] == "write") { freal* w = sl[s].warray(); if(w) w[i] = x + 1000*(rank_+1); }
			else if(f[0] == "read") { const freal* w = sl[s].array(); if(w) for(int q = 0; q < N + (sl[s].kind[0] == 'G' && size_ > 1); q++) vals.push_back((int)w[q]); }
			else if(f[0] == "restore") sl[s].restore();
			else if(f[0] == "del") sl[s].del();
			else if(f[0] == "norm") VecNorm(v[k], NORM_1, &norm);
			else if(f[0] == "update" && k == 0) { VecGhostUpdateBegin(v[k], INSERT_VALUES, SCATTER_FORWARD); VecGhostUpdateEnd(v[k], INSERT_VALUES, SCATTER_FORWARD); }
		} catch(const std::exception& e) { thrown = true; }
		for(int q = 0; q < 2; q++) PetscObjectStateGet((PetscObject)v[q], &b[q]);
		J j; j.str("event","Op").b("thrown",thrown).b("null", s >= 0 && sl[s].any() ? sl[s].array() == nullptr : true).a("vals",vals).i("norm",(int)norm);
		j.raw("changed", std::string("[") + (a[0] != b[0] ? "true" : "false") + "," + (a[1] != b[1] ? "true" : "false") + "]");
		j.a("refs", std::vector<int>{refs(v[0])-base});
		ev.push_back(j.done());
	}
	for(auto& s : sl) s.del();
	VecDestroy(&v[0]); VecDestroy(&v[1]);
}
int main(int argc, char** argv)
{
	PetscInitialize(&argc, &argv, NULL, NULL);
	MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &size_);
	{
		const std::vector<Job> jobs = readJobs(argv[1]);
		const std::string sfx = size_ > 1 ? "." + std::to_string(rank_) : "";
		Out out(argv[2] + sfx, rank_ == 0 ? std::string(argv[3]) : std::string("/dev/null"));
		Quiet quiet;
		for(const Job& j : jobs) {
			MPI_Barrier(MPI_COMM_WORLD);
			out.begin(j.id);
			std::vector<std::string> ev; run(j, ev);
			J l; l.i("id", j.id).raw("ev", J::arrs(ev)); out.line(l.done());
		}
	}
	PetscFinalize();
	return 0;
}
