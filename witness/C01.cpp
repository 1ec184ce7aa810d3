// sa: min=100 setup=history build=o1
#define PROP 1
#include "cb.hpp"
#include "bulk.hpp"
using RV = nytl::RecursiveCallback<void(int), Id>;
using RI = nytl::RecursiveCallback<int(int), Id>;
using PV = nytl::Callback<void(int), Id>;
using PI = nytl::Callback<int(int), Id>;
OB(callback) { client<PV>(8, 1); }
OB(callback_results) { client<PI>(8, 1); }
OB(recursive) { client<RV>(4, 1); }
OB(recursive_results) { client<RI>(4, 1); }
OB(many_1) { bulk::during<nytl::Callback<int(int)>>(40); }
OB(many_2) { bulk::during<nytl::RecursiveCallback<int(int)>>(40); }
OB(many_3) { bulk::between<nytl::Callback<void(int)>>(40); }
OB(many_4) { bulk::between<nytl::RecursiveCallback<void(int)>>(40); }
OB(many_5) { bulk::between<nytl::Callback<int(int)>>(300, 1); }
OB(many_6) { bulk::between<nytl::RecursiveCallback<int(int)>>(300, 1); }
// a plain callback lists its functions: these, in this order
OB(listed) {
	nytl::Callback<int(int)> cb;
	nytl::Connection con[6]; bool reg[6] {}; long ids[6] {};
	for(int step = 0; step < 6; ++step) {
		con[step] = cb.add([step](int a) { return 10 * a + step; });
		ids[step] = con[step].id().get(); reg[step] = true;
		if(step >= 2) {
			const int d = sa_choose(4);
			if(d < 3) { con[step - d].disconnect(); reg[step - d] = false; }
		}
		if(step == 3 && sa_choose(4) == 3) { cb.clear(); for(auto& r : reg) r = false; }
	}
	const auto& list = cb.subscriptions();
	unsigned k = 0;
	for(int n = 0; n < 6; ++n) {
		if(!reg[n]) continue;
		sa_expect(k < list.size(), "every registered function is listed");
		if(k >= list.size()) return;
		sa_eq((long) list[k].id.get(), ids[n], "functions are listed in the order of registration");
		sa_eq(list[k].func(7), 70 + n, "functions are listed in the order of registration");
		++k;
	}
	sa_eq((unsigned long) list.size(), (unsigned long) k, "only registered functions are listed");
}
#ifdef THOROUGH
OB(thorough_callback) { client<PV>(12, 1); }
OB(thorough_recursive) { client<RV>(9, 1); }
#endif
