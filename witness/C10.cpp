// sa: min=100 setup=history build=o1
#define PROP 10
#include "cb.hpp"
using RV = nytl::RecursiveCallback<void(int), Id>;
using RI = nytl::RecursiveCallback<int(int), Id>;
using PV = nytl::Callback<void(int), Id>;
using PI = nytl::Callback<int(int), Id>;
OB(callback) { client<PV>(8, 1); }
OB(recursive) { client<RV>(4, 1); }
#ifdef THOROUGH
OB(thorough_nested) { client<RV>(3, 2); }
OB(thorough_wider) { client<RV>(5, 1); }
#endif
