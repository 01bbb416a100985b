#include <numeric>
#include <sstream>
#include <string>
#include "arma_include.hpp"
#include "my_timer.hpp"
#include "functor_sim.hpp"
namespace sim {
void run_timer(const std::string &script, const dvec &waits, bool out_at_start, Env *env, std::vector<TimerOp> &log)
{
	EnvScope es(env);
	std::ostringstream out, out2;
	auto n = [env]() { return long(env->reads.size()); };
	auto rec = [&](char op, double v, long before) {
		TimerOp t; t.op = op; t.value = v; t.read_before = before; t.read_after = n(); t.second = out2.str(); t.text = out.str() + t.second;
		out.str(""); out2.str("");
		log.push_back(t);
	};
	Dirty<my_timer> d(env->fill);
	long b = n();
	if (out_at_start) new (d.raw) my_timer(out); else new (d.raw) my_timer();
	d.live = true;
	rec('c', 0, b);
	my_timer &t = d.get();
	timeval tv = { 0, 0 }; bool have = false;
	std::size_t w = 0;
	for (std::size_t i = 0; i < script.size(); ++i) {
		b = n();
		switch (script[i]) {
		case 't': t.tic(); rec('t', 0, b); break;
		case 'o': { double v = t.toc(); rec('o', v, b); break; }
		case 'm': { double v = t.toc("message", "after"); rec('m', v, b); break; }
		case 'g': tv = t.get_tic(); have = true; rec('g', 0, b); break;
		case 'e': if (have) { double v = t.get_elapsed(tv); rec('e', v, b); } break;
		case 'E': t.enable_output(out2); rec('E', 0, b); break;
		case 'D': t.disable_output(); rec('D', 0, b); break;
		case 'w': env->now_us += std::int64_t(waits[w++ % waits.size()]); break;
		case 'j': env->wall_off_us += std::int64_t(waits[w++ % waits.size()]); break;
		}
	}
}
}
