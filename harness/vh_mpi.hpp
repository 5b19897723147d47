// Interposes on MPI point-to-point calls (through the profiling interface) to explore adversarial but legal schedules:
//  - the library reads a send buffer as late as it may (at the next blocking call), not when MPI_Isend is called
//  - receive buffers hold garbage until the receive completes
//  - random delays before and after calls
// and to count the messages posted between pairs of ranks.
#ifndef VH_MPI_HPP
#define VH_MPI_HPP
#include <mpi.h>
#include <unistd.h>
#include <cstring>
#include <map>
#include <vector>
#include <random>
namespace vh {
struct Adv {
	bool on = false; int maxdelay = 0; int lazy = 0;      // lazy: microseconds for which blocking receives are tried before sends are started
	 std::mt19937 rng{1};
	std::vector<MPI_Request> deferred;                 // persistent, not yet started
	std::vector<MPI_Request> owned;                    // persistent, to be freed on completion
	std::map<int,long> sent, recvd;                    // peer -> messages posted
	long outstanding = 0;
	void delay() { if(on && maxdelay > 0) { int d = rng() % (maxdelay+1); if(d > maxdelay/2) usleep(d); } }
	void flush() { for(MPI_Request& r : deferred) { MPI_Request c = r; PMPI_Start(&c); } deferred.clear(); }
	bool isdeferred(MPI_Request r) { for(auto o : deferred) if(o == r) return true; return false; }
	/// Postpone our own sends while a receive can complete without them
	bool tryfirst(int n, MPI_Request* r) {
		if(lazy <= 0 || deferred.empty()) return false;
		for(int i = 0; i < n; i++) if(isdeferred(r[i])) return false;
		double t0 = MPI_Wtime();
		while((MPI_Wtime() - t0)*1e6 < lazy) {
			int all = 1; for(int i = 0; i < n; i++) if(r[i] != MPI_REQUEST_NULL) { int f = 0; PMPI_Request_get_status(r[i], &f, MPI_STATUS_IGNORE); all = all && f; }
			if(all) return true;
		}
		return false;
	}
	bool isowned(MPI_Request r) { for(auto o : owned) if(o == r) return true; return false; }
	void release(MPI_Request before, MPI_Request* req) {
		for(size_t i = 0; i < owned.size(); i++) if(owned[i] == before) {
			owned.erase(owned.begin()+i); MPI_Request f = before; PMPI_Request_free(&f); *req = MPI_REQUEST_NULL; return; } }
	void reset() { sent.clear(); recvd.clear(); outstanding = 0; }
};
inline Adv& adv() { static Adv a; return a; }
}
extern "C" {
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r)
{
	auto& a = vh::adv();
	if(!a.on) return PMPI_Isend(b,n,t,d,tag,c,r);
	a.delay(); a.sent[d]++; a.outstanding++;
	int ierr = PMPI_Send_init(b,n,t,d,tag,c,r); a.deferred.push_back(*r); a.owned.push_back(*r); return ierr;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r)
{
	auto& a = vh::adv();
	if(a.on) { a.delay(); a.recvd[s]++; a.outstanding++; int sz; PMPI_Type_size(t,&sz); std::memset(b, 0xFF, (size_t)sz*n); }
	return PMPI_Irecv(b,n,t,s,tag,c,r);
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ auto& a = vh::adv(); if(a.on) { a.delay(); a.flush(); a.sent[d]++; } return PMPI_Send(b,n,t,d,tag,c); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st)
{ auto& a = vh::adv(); if(a.on) { a.delay(); a.flush(); a.recvd[s]++; } return PMPI_Recv(b,n,t,s,tag,c,st); }
int MPI_Wait(MPI_Request* r, MPI_Status* s)
{ auto& a = vh::adv(); if(a.on) { if(!a.tryfirst(1,r)) a.flush(); a.delay(); } MPI_Request o = *r; if(a.on && o != MPI_REQUEST_NULL) a.outstanding--; int e = PMPI_Wait(r,s); a.release(o, r); return e; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s)
{
	auto& a = vh::adv(); if(a.on) { if(!a.tryfirst(n,r)) a.flush(); a.delay(); }
	std::vector<MPI_Request> o(r, r+n); if(a.on) for(auto x : o) if(x != MPI_REQUEST_NULL) a.outstanding--;
	int e = PMPI_Waitall(n,r,s); for(int i = 0; i < n; i++) a.release(o[i], &r[i]); return e;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* s)
{
	auto& a = vh::adv(); if(a.on) { a.flush(); a.delay(); }
	std::vector<MPI_Request> o(r, r+n); int e = PMPI_Waitany(n,r,idx,s);
	if(*idx != MPI_UNDEFINED) { if(a.on) a.outstanding--; a.release(o[*idx], &r[*idx]); } return e;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s)
{ auto& a = vh::adv(); if(a.on) a.flush(); MPI_Request o = *r; int e = PMPI_Test(r,f,s); if(*f) { if(a.on && o != MPI_REQUEST_NULL) a.outstanding--; a.release(o, r); } return e; }
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* s)
{
	auto& a = vh::adv(); if(a.on) a.flush(); std::vector<MPI_Request> o(r, r+n); int e = PMPI_Testall(n,r,f,s);
	if(*f) for(int i = 0; i < n; i++) { if(a.on && o[i] != MPI_REQUEST_NULL) a.outstanding--; a.release(o[i], &r[i]); } return e;
}
int MPI_Waitsome(int n, MPI_Request* r, int* m, int* idx, MPI_Status* s)
{
	auto& a = vh::adv(); if(a.on) { a.flush(); a.delay(); } std::vector<MPI_Request> o(r, r+n); int e = PMPI_Waitsome(n,r,m,idx,s);
	if(*m != MPI_UNDEFINED) for(int i = 0; i < *m; i++) { if(a.on) a.outstanding--; a.release(o[idx[i]], &r[idx[i]]); } return e;
}
int MPI_Barrier(MPI_Comm c) { auto& a = vh::adv(); if(a.on) { a.flush(); a.delay(); } return PMPI_Barrier(c); }
int MPI_Allreduce(const void* x, void* y, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { auto& a = vh::adv(); if(a.on) { a.flush(); a.delay(); } return PMPI_Allreduce(x,y,n,t,o,c); }
int MPI_Bcast(void* x, int n, MPI_Datatype t, int r, MPI_Comm c) { auto& a = vh::adv(); if(a.on) { a.flush(); a.delay(); } return PMPI_Bcast(x,n,t,r,c); }
int MPI_Probe(int s, int t, MPI_Comm c, MPI_Status* st) { auto& a = vh::adv(); if(a.on) a.flush(); return PMPI_Probe(s,t,c,st); }
int MPI_Iprobe(int s, int t, MPI_Comm c, int* f, MPI_Status* st) { auto& a = vh::adv(); if(a.on) a.flush(); return PMPI_Iprobe(s,t,c,f,st); }
}
#endif
