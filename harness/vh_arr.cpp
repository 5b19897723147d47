// Conformance driver for the two-dimensional arrays: a sequence of operations on up to three arrays.
#include "vh.hpp"
#include <memory>
#include <petscsys.h>
#include "utilities/aarray2d.hpp"
using namespace fvens; using namespace vh;
static std::string tmp;
// real entries are four thirds of the specification's numbers, so that they need all their digits
template <typename T> T val(int x) { return (T)x; }
template <> freal val<freal>(int x) { return x*4.0/3.0; }
template <typename T> int obs(T v) { return (int)v; }
template <> int obs<freal>(freal v) { return q(v*0.75,1e6); }
template <typename T> static std::string state(const std::unique_ptr<amat::Array2d<T>>& p)
{
	if(!p) return "{\"shape\":[0,0,0],\"get\":[],\"op\":[],\"row\":[],\"view\":[]}";
	const amat::Array2d<T>& a = *p;
	std::vector<int> g, o, r, v; const int R = a.rows(), C = a.cols();
	if(R < 0 || C < 0 || R > 99 || C > 99) return "{\"shape\":[-1,-1,-1],\"get\":[],\"op\":[],\"row\":[],\"view\":[]}";
	for(int i = 0; i < R; i++) {
		const T* w = C > 0 ? a.const_row_pointer(i) : nullptr;
		for(int j = 0; j < C; j++) {
			g.push_back(obs<T>(a.get(i,j))); o.push_back(obs<T>(a(i,j))); r.push_back(obs<T>(w[j]));
			amat::Array2dView<T> vw(&a(0,0), R, C); v.push_back(obs<T>(vw(i,j)));
		}
	}
	J j; j.a("shape", std::vector<int>{R, C, (int)a.msize()}).a("get", g).a("op", o).a("row", r).a("view", v);
	return j.done();
}
template <typename T> static void run(const Job& job, std::vector<std::string>& ev)
{
	typedef amat::Array2d<T> A; std::unique_ptr<A> a[3];
	std::stringstream ss(job.s("ops")); std::string op;
	while(std::getline(ss, op, ',')) {
		std::stringstream os(op); std::string f[8]; for(auto& x : f) std::getline(os, x, ':');
		const int k = std::stoi(f[1])-1, l = std::stoi(f[2])-1, i = std::stoi(f[3])-1, j = std::stoi(f[4])-1, x = std::stoi(f[5]), r = std::stoi(f[6]), c = std::stoi(f[7]);
		if(f[0] == "new") a[k].reset(new A(r,c));
		else if(f[0] == "empty") a[k].reset(new A());
		else if(f[0] == "copy") a[k].reset(new A(*a[l]));
		else if(f[0] == "move") a[k].reset(new A(std::move(*a[l])));
		else if(f[0] == "assign") *a[k] = *a[l];
		else if(f[0] == "resize") a[k]->resize(r,c);
		else if(f[0] == "zeros") a[k]->zeros();
		else if(f[0] == "ones") a[k]->ones();
		else if(f[0] == "data") { std::vector<T> d(a[k]->msize()+1); for(size_t q = 0; q < d.size(); q++) d[q] = val<T>(x + (int)q); a[k]->setdata(d.data(), a[k]->msize()); }
		else if(f[0] == "set") (*a[k])(i,j) = val<T>(x);
		else if(f[0] == "row") { T* w = a[k]->row_pointer(i); for(int q = 0; q < a[k]->cols(); q++) w[q] = val<T>(x + q); }
		else if(f[0] == "trip") {
			{ std::ofstream o(tmp); o << a[l]->rows() << ' ' << a[l]->cols() << '\n'; a[l]->fprint(o); }
			std::ifstream in(tmp); a[k]->fread(in);
		}
		else if(f[0] == "del") a[k].reset();
		J e; e.str("event","Op").raw("arr", J::arrs({state(a[0]), state(a[1]), state(a[2])})); ev.push_back(e.done());
	}
}
int main(int argc, char** argv)
{
	const std::vector<Job> jobs = readJobs(argv[1]); tmp = std::string(argv[2]) + ".arr";
	Out out(argv[2], std::string(argv[3]));
	Quiet quiet;
	for(const Job& j : jobs) {
		out.begin(j.id);
		std::vector<std::string> ev; if(j.s("type") == "real") run<freal>(j, ev); else run<fint>(j, ev);
		J l; l.i("id", j.id).raw("ev", J::arrs(ev)); out.line(l.done());
	}
	std::remove(tmp.c_str());
	return 0;
}
