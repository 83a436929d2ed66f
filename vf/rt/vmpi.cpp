// MPI calls made by the C++ code, forwarded to the controller of the simulated communicator (vf/mpi.py).
#include <mpi.h>
#include <unistd.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <map>
#include <vector>
#include <string>
static int fd = -1;
struct Hdr { int32_t op, peer, tag, req, len; };
static void wr(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(77); c += k; n -= k; } }
static void rd(void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) _exit(77); c += k; n -= k; } }
static std::string rpc(int op, int peer, int tag, int req, const void* p, int len, Hdr* out) {
  if (fd < 0) { fprintf(stderr, "vmpi: MPI call outside of a simulated run\n"); abort(); }
  Hdr h = {op, peer, tag, req, len}; wr(&h, sizeof h); if (len) wr(p, len);
  rd(out, sizeof *out); std::string s(out->len, 0); if (out->len) rd(&s[0], out->len); return s;
}
static int tsize(MPI_Datatype t) { if (t == MPI_DOUBLE) return 8; if (t == MPI_INT || t == MPI_FLOAT) return 4; if (t == MPI_CHAR || t == MPI_BYTE) return 1; if (t == MPI_LONG) return 8; abort(); }
struct Req { void* buf; int cap; bool done; bool send; };
static std::map<int, Req> reqs;
static void fill(Req& r, const std::string& s) { if ((int)s.size() > r.cap) { fprintf(stderr, "vmpi: message truncated (%d > %d)\n", (int)s.size(), r.cap); _exit(78); } memcpy(r.buf, s.data(), s.size()); r.done = true; }
extern "C" {
void vm_set(int f) { fd = f; reqs.clear(); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm) { Hdr h; rpc('S', dest, tag, 0, b, n * tsize(t), &h); return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm) { Hdr h; rpc('Y', dest, tag, 0, b, n * tsize(t), &h); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm, MPI_Request* r) { Hdr h; rpc('I', dest, tag, 0, b, n * tsize(t), &h); reqs[h.req] = Req{0, 0, false, true}; *r = (MPI_Request)(intptr_t)h.req; return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* st) {
  Hdr h; std::string s = rpc('R', src, tag, 0, 0, 0, &h); Req q{b, n * tsize(t), false, false}; fill(q, s);
  if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = src; st->MPI_TAG = tag; st->_ucount = s.size(); } return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request* r) {
  Hdr h; std::string s = rpc('P', src, tag, 1, 0, 0, &h); Req q{b, n * tsize(t), false, false};
  if (h.op == 'D') fill(q, s);
  reqs[h.req] = q; *r = (MPI_Request)(intptr_t)h.req; return 0; }
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
  int id = (int)(intptr_t)*r; auto it = reqs.find(id); if (*r == MPI_REQUEST_NULL || it == reqs.end()) return 0;
  Req q = it->second; reqs.erase(it); *r = MPI_REQUEST_NULL; int nb = 0;
  if (!q.done) { Hdr h; std::string s = rpc('W', 0, 0, id, 0, 0, &h); nb = s.size(); if (!q.send) fill(q, s); }
  if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->_ucount = nb; } return 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(r + i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i); return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->_ucount / tsize(t); return 0; }
}
