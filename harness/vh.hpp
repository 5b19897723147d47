// Small helpers shared by the conformance drivers: ndjson emission and quantisation.
#ifndef VH_HPP
#define VH_HPP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

/// Sentinels outside every quantised range the specifications use (TLC integers are 32 bit)
constexpr int Q_NAN = 2000000001, Q_OVER = 2000000000;

/// Quantise a real number: nearest integer of x*scale, saturated well inside 32 bits
inline int q(const double x, const double scale)
{
	if(!std::isfinite(x)) return Q_NAN;
	const double y = x*scale;
	if(y >= 1.9e9) return Q_OVER;
	if(y <= -1.9e9) return -Q_OVER;
	return (int)std::llround(y);
}

/// A streaming JSON builder
class J {
	std::string s;
	bool first = true;
	void sep() { if(!first) s += ","; first = false; }
public:
	J() : s("{") {}
	J& raw(const std::string& k, const std::string& v) { sep(); s += "\"" + k + "\":" + v; return *this; }
	J& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
	J& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
	static std::string quote(const std::string& v)
	{
		std::string r = "\"";
		for(char c : v) {
			if(c == '"' || c == '\\') { r += '\\'; r += c; }
			else if((unsigned char)c < 32) { r += ' '; }
			else r += c;
		}
		return r + "\"";
	}
	J& str(const std::string& k, const std::string& v) { return raw(k, quote(v)); }
	template <typename T> static std::string arr(const std::vector<T>& v)
	{
		std::string r = "[";
		for(size_t i = 0; i < v.size(); i++) { if(i) r += ","; r += std::to_string(v[i]); }
		return r + "]";
	}
	static std::string arrs(const std::vector<std::string>& v)
	{
		std::string r = "[";
		for(size_t i = 0; i < v.size(); i++) { if(i) r += ","; r += v[i]; }
		return r + "]";
	}
	template <typename T> static std::string arr2(const std::vector<std::vector<T>>& v)
	{
		std::string r = "[";
		for(size_t i = 0; i < v.size(); i++) { if(i) r += ","; r += arr(v[i]); }
		return r + "]";
	}
	template <typename T> J& a(const std::string& k, const std::vector<T>& v) { return raw(k, arr(v)); }
	template <typename T> J& aa(const std::string& k, const std::vector<std::vector<T>>& v) { return raw(k, arr2(v)); }
	std::string done() const { return s + "}"; }
};

/// A parsed "jobs" file: one job per line, whitespace separated key=value words
struct Job {
	std::map<std::string,std::string> kv;
	int id = -1;
	bool has(const std::string& k) const { return kv.count(k); }
	std::string s(const std::string& k, const std::string& d = "") const
	{ auto it = kv.find(k); return it == kv.end() ? d : it->second; }
	int i(const std::string& k, int d = 0) const
	{ auto it = kv.find(k); return it == kv.end() ? d : std::atoi(it->second.c_str()); }
	double r(const std::string& k, double d = 0) const
	{ auto it = kv.find(k); return it == kv.end() ? d : std::atof(it->second.c_str()); }
	std::vector<int> iv(const std::string& k) const
	{
		std::vector<int> v; auto it = kv.find(k); if(it == kv.end()) return v;
		std::stringstream ss(it->second); std::string w;
		while(std::getline(ss, w, ',')) if(!w.empty()) v.push_back(std::atoi(w.c_str()));
		return v;
	}
	std::vector<double> rv(const std::string& k) const
	{
		std::vector<double> v; auto it = kv.find(k); if(it == kv.end()) return v;
		std::stringstream ss(it->second); std::string w;
		while(std::getline(ss, w, ',')) if(!w.empty()) v.push_back(std::atof(w.c_str()));
		return v;
	}
};

inline std::vector<Job> readJobs(const char* path)
{
	std::vector<Job> jobs; std::ifstream f(path); std::string line;
	while(std::getline(f, line)) {
		if(line.empty()) continue;
		Job j; std::stringstream ss(line); std::string w;
		while(ss >> w) { auto p = w.find('='); if(p != std::string::npos) j.kv[w.substr(0,p)] = w.substr(p+1); }
		j.id = j.i("id", (int)jobs.size());
		jobs.push_back(j);
	}
	return jobs;
}

/// Silences the library's chatter on stdout
struct Quiet {
	std::ofstream null; std::streambuf* old;
	Quiet() : null("/dev/null"), old(std::cout.rdbuf(null.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(old); }
};

/// Writes one line per job; a job that dies leaves a "begin" marker without its line
class Out {
	FILE* f; FILE* prog;
public:
	Out(const std::string& path, const std::string& progress)
		: f(std::fopen(path.c_str(), "a")), prog(std::fopen(progress.c_str(), "a")) {}
	~Out() { std::fclose(f); std::fclose(prog); }
	void begin(int id) { std::fprintf(prog, "%d\n", id); std::fflush(prog); }
	void line(const std::string& s) { std::fputs(s.c_str(), f); std::fputc('\n', f); std::fflush(f); }
};

}
#endif
