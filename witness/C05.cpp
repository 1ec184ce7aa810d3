// sa: min=100 setup=history build=o1
#define PROP 5
#include "cb.hpp"
#include "bulk.hpp"
using RV = nytl::RecursiveCallback<void(int), Id>;
using RI = nytl::RecursiveCallback<int(int), Id>;
using PV = nytl::Callback<void(int), Id>;
using PI = nytl::Callback<int(int), Id>;
OB(recursive) { client<RV>(4, 1); }
OB(recursive_results) { client<RI>(4, 1); }
OB(recursive_nested) { client<RV>(3, 2); }
OB(many_1) { bulk::during<nytl::RecursiveCallback<int(int)>>(40); }
OB(many_2) { bulk::during<nytl::RecursiveCallback<void(int), nytl::TrackedConnectionID>>(40); }
#ifdef THOROUGH
OB(thorough_deeper) { client<RV>(3, 3); }
#endif
