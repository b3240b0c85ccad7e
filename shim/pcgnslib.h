// Parallel CGNS is not installed: every call of it fails (nothing here uses PrintMeshCGNS).
#pragma once
#include <cgnslib.h>
template <class... A> int cgp_open(A...) { return 1; }
template <class... A> int cgp_close(A...) { return 1; }
template <class... A> int cgp_coord_write(A...) { return 1; }
template <class... A> int cgp_coord_write_data(A...) { return 1; }
template <class... A> int cgp_poly_section_write(A...) { return 1; }
template <class... A> int cgp_poly_elements_write_data(A...) { return 1; }
template <class... A> int cgp_ptlist_write_data(A...) { return 1; }
#undef CGNS_VERSION
#define CGNS_VERSION 4500
