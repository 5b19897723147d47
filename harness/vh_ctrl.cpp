// Conformance driver for control files and options (C01).
#include "vh_real.hpp"
#include <petscsys.h>
#include <boost/program_options/options_description.hpp>
#include <boost/program_options/variables_map.hpp>
#include <memory>
#include <new>
#include "utilities/aoptionparser.hpp"
#include "utilities/controlparser.hpp"
#include "spatial/abctypemap.hpp"
using namespace fvens; using namespace vh;
namespace po = boost::program_options;
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> v; std::stringstream ss(s); std::string w; while(std::getline(ss, w, c)) v.push_back(w); return v; }
static std::string bcs(const std::vector<FlowBCConfig>& v)
{
	std::vector<std::string> r;
	for(const auto& b : v) { auto it = bcTypeMap.left.find(b.bc_type); J j; j.str("type", it == bcTypeMap.left.end() ? "?" : it->second).i("marker", b.bc_tag).raw("vals", rv(b.bc_vals)).a("opts", b.bc_opts); r.push_back(j.done()); }
	return J::arrs(r);
}
static std::string physics(const FlowPhysicsConfig& p)
{ J j; j.raw("gamma", rs(p.gamma)).raw("M", rs(p.Minf)).raw("T", rs(p.Tinf)).raw("Re", rs(p.Reinf)).raw("Pr", rs(p.Pr)).raw("aoa", rs(p.aoa)).b("visc", p.viscous_sim).b("cvisc", p.const_visc).raw("bcs", bcs(p.bcconf)); return j.done(); }
static std::string numerics(const FlowNumericsConfig& n)
{ J j; j.str("flux", n.conv_numflux).str("jflux", n.conv_numflux_jac).str("grad", n.gradientscheme).str("rec", n.reconstruction).raw("param", rs(n.limiter_param)).b("second", n.order2); return j.done(); }
static void setOptions(const Job& job)
{
	PetscOptionsClear(NULL);
	for(const auto& o : split(job.s("petsc"), '|')) { const auto p = o.find('~'); if(p == std::string::npos) PetscOptionsSetValue(NULL, o.c_str(), NULL); else PetscOptionsSetValue(NULL, o.substr(0,p).c_str(), o.substr(p+1).c_str()); }
}
static void parse(const Job& job, std::vector<std::string>& ev)
{
	std::vector<std::string> args = {"fvens", job.s("ctrl")}; for(const auto& a : split(job.s("args"), '|')) args.push_back(a);
	std::vector<const char*> argv; for(const auto& a : args) argv.push_back(a.c_str());
	// the result is constructed in memory with recognisable contents, so that fields never set are seen
	alignas(FlowParserOptions) static unsigned char mem[sizeof(FlowParserOptions)]; std::memset(mem, 0x5a, sizeof mem);
	FlowParserOptions* o = nullptr; J j;
	try {
		po::options_description desc("test");
		const po::variables_map vm = parse_cmd_options((int)argv.size(), argv.data(), desc);
		o = new(mem) FlowParserOptions(parse_flow_controlfile((int)argv.size(), argv.data(), vm));
		j.str("event", "Parsed").str("mesh", o->meshfile).str("vtu", o->vtu_output_file).str("log", o->logfile).b("history", o->lognres).b("write", o->write_final_lin_sys)
		 .str("flow", o->flowtype).raw("gamma", rs(o->gamma)).raw("alpha", rs(o->alpha)).raw("M", rs(o->Minf)).raw("T", rs(o->Tinf)).raw("Re", rs(o->Reinf)).raw("Pr", rs(o->Pr))
		 .b("visc", o->viscsim).b("cvisc", o->useconstvisc).raw("bcs", bcs(o->bcconf)).a("walls", o->lwalls).a("others", o->lothers).i("nwalls", o->num_out_walls).i("nothers", o->num_out_others)
		 .str("surf", o->surfnameprefix).str("vol", o->volnameprefix).str("volreq", o->vol_output_reqd)
		 .str("sim", o->sim_type).raw("tfinal", rs(o->final_time)).str("integrator", o->time_integrator).i("torder", o->time_order).raw("pcfl", rs(o->phy_cfl)).raw("pdt", rs(o->phy_timestep))
		 .str("flux", o->invflux).str("grad", o->gradientmethod).str("rec", o->limiter).raw("param", rs(o->limiter_param)).b("second", o->order2)
		 .str("ptype", o->pseudotimetype).raw("main", rv({o->initcfl, o->endcfl, o->tolerance})).i("mainsteps", o->maxiter)
		 .b("starter", o->usestarter != 0).raw("init", rv({o->firstinitcfl, o->firstendcfl, o->firsttolerance})).i("initsteps", o->firstmaxiter)
		 .str("jflux", o->invfluxjac).str("update", o->nl_update_scheme).raw("minupdate", rs(o->min_nl_update))
		 .raw("phys", physics(extract_spatial_physics_config(*o))).raw("num", numerics(extract_spatial_numerics_config(*o))).raw("first", numerics(firstorder_spatial_numerics_config(*o)));
		o->~FlowParserOptions();
	} catch(const std::exception& e) { j = J(); j.str("event", "Rejected").str("what", e.what()); }
	ev.push_back(j.done());
}
static void queries(const Job& job, std::vector<std::string>& ev)
{
	for(const auto& qy : split(job.s("queries"), '|')) {
		const auto f = split(qy, '~'); const std::string &kind = f[0], &name = f[1];
		J j; j.str("event", "Query").str("kind", kind);
		std::vector<std::string> val; bool ok = true; auto put = [&val](const std::string& s) { val.push_back(J::quote(s)); };
		auto num = [](double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return std::string(b); };
		try {
			if(kind == "defined") put(parsePetscCmd_isDefined(name) ? "true" : "false");
			else if(kind == "int") put(std::to_string(parsePetscCmd_int(name)));
			else if(kind == "real") put(num(parseOptionalPetscCmd_real(name, std::stod(f[2]))));
			else if(kind == "bool") put(parsePetscCmd_bool(name) ? "true" : "false");
			else if(kind == "optbool") put(parseOptionalPetscCmd_bool(name) ? "true" : "false");
			else if(kind == "string") put(parsePetscCmd_string(name, std::stoi(f[2])));
			else for(int i : kind == "array" ? parsePetscCmd_intArray(name, std::stoi(f[2])) : parseOptionalPetscCmd_intArray(name, std::stoi(f[2]))) put(std::to_string(i));
		} catch(const std::exception& e) { ok = false; val.clear(); }
		j.b("ok", ok).raw("val", J::arrs(val)); ev.push_back(j.done());
	}
}
int main(int argc, char** argv)
{
	int n = 1; char** a = argv; PetscInitialize(&n, &a, NULL, NULL); PetscPushErrorHandler(PetscReturnErrorHandler, NULL);
	{
		auto jobs = readJobs(argv[1]); Out out(argv[2], argv[3]); Quiet quiet;
		for(auto& j : jobs) {
			out.begin(j.id); std::vector<std::string> ev; setOptions(j);
			if(j.has("queries")) queries(j, ev); else parse(j, ev);
			J o; o.i("id", j.id).raw("ev", J::arrs(ev)); out.line(o.done());
		}
		PetscOptionsClear(NULL);
	}
	PetscFinalize(); return 0;
}
