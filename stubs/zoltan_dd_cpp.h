// distributed directory (trusted contract): maps a global id to a block of `len` bytes
#pragma once
#include "zoltan_types.h"
#include <mpi.h>
#include <cstring>
#include <vector>
#include "vc.h"
struct Zoltan_DD {
    int len = -1, idlen = -1, ncreate = 0, nupdate = 0, nfind = 0;
    const ZOLTAN_ID_TYPE *upId = nullptr; const char *upData = nullptr; long upN = 0; const ZOLTAN_ID_TYPE *fId = nullptr; char *fData = nullptr; long fN = 0;
    int Create(MPI_Comm, const int &ngid, const int &nlid, const int &ulen, const int &, const int &) { idlen = ngid; len = ulen; ncreate++; return ZOLTAN_OK; }
    int Update(ZOLTAN_ID_PTR g, ZOLTAN_ID_PTR, char *u, int *, const int &n) { upId = g; upData = u; upN = n; nupdate++; return ZOLTAN_OK; }
    int Find(ZOLTAN_ID_PTR g, ZOLTAN_ID_PTR, char *u, int *, const int &n, int *) { fId = g; fData = u; fN = n; nfind++; return ZOLTAN_OK; }
    void Print() {} void Stats() {}
};
