// sa: min=100 setup=history build=o1
#define PROP 3
#include "cb.hpp"
#include "bulk.hpp"
using RV = nytl::RecursiveCallback<void(int), Id>;
using RI = nytl::RecursiveCallback<int(int), Id>;
using PV = nytl::Callback<void(int), Id>;
using PI = nytl::Callback<int(int), Id>;
OB(callback) { client<PV>(8, 1); }
OB(recursive) { client<RV>(4, 1); }
OB(recursive_nested) { client<RV>(3, 2); }
OB(many_1) { bulk::between<nytl::Callback<void(int), nytl::TrackedConnectionID>>(40); }
OB(many_2) { bulk::between<nytl::RecursiveCallback<void(int), bulk::Id>>(40); }
OB(many_3) { bulk::during<nytl::RecursiveCallback<void(int), bulk::Id>>(40); }
OB(many_4) { bulk::between<nytl::Callback<void(int), bulk::Id>>(300, 1); }
OB(many_5) { bulk::between<nytl::RecursiveCallback<void(int), bulk::Id>>(300, 1); }
OB(many_6) { bulk::during<nytl::RecursiveCallback<void(int), nytl::TrackedConnectionID>>(40); }
#ifdef THOROUGH
OB(thorough_deeper) { client<RV>(3, 3); }
OB(thorough_wider) { client<RV>(4, 2); }
#endif
