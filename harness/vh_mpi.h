// A controlled MPI for the point-to-point halo traffic: every persistent or immediate send/receive goes through a
// shadow buffer, and the moment at which the send buffer is read and the receive buffer is written is a choice:
//   send: at the start of the request, or as late as MPI allows (when the rank next waits)
//   receive: as early as the message is there, or poison until the wait on that request
// MPI allows all of these, so code that is right for every message order gives the same result under each.
#pragma once
#include <mpi.h>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <sched.h>

namespace vmpi {
struct Req { MPI_Request sh; bool send, persistent, active, started, delivered; void *user; std::vector<char> buf; int tag; size_t bytes; int peer; };
struct Ctl { bool on = false; unsigned mode = 0; long starts = 0, early = 0, late = 0, poisoned = 0, missed = 0; };
// mode bits: 0,1: send of even/odd tag captured late; 2,3: receive of even/odd tag delivered early
inline Ctl &ctl() { static Ctl c; return c; }
inline std::vector<std::pair<MPI_Request, Req *>> &tab() { static std::vector<std::pair<MPI_Request, Req *>> t; return t; }
inline Req *find(MPI_Request r) { for (auto &p : tab()) if (p.first == r) return p.second; return nullptr; }
inline void drop(MPI_Request r) { auto &t = tab(); for (size_t i = 0; i < t.size(); i++) if (t[i].first == r) { delete t[i].second; t.erase(t.begin() + i); return; } }
inline Req *make(bool send, bool pers, void *u, int n, MPI_Datatype d, int tag, int peer)
{
	int sz; MPI_Type_size(d, &sz);
	Req *q = new Req();
	q->send = send; q->persistent = pers; q->active = q->started = q->delivered = false;
	q->user = u; q->bytes = (size_t) n * sz; q->buf.resize(q->bytes ? q->bytes : 1); q->tag = tag; q->peer = peer;
	return q;
}
inline bool late(Req *q) { return (ctl().mode >> (q->tag & 1)) & 1; }
inline bool early(Req *q) { return (ctl().mode >> (2 + (q->tag & 1))) & 1; }
inline void fire(Req *q) { if (q->started) return; memcpy(q->buf.data(), q->user, q->bytes); q->started = true; PMPI_Start(&q->sh); }
inline void flush() { for (auto &p : tab()) if (p.second->send && p.second->active) fire(p.second); }
inline void deliver(Req *q) { if (!q->delivered) { memcpy(q->user, q->buf.data(), q->bytes); q->delivered = true; } }
inline void start(Req *q)
{
	q->active = true; q->started = q->delivered = false; ctl().starts++;
	if (q->send) { if (late(q)) ctl().late++; else { ctl().early++; fire(q); } return; }
	for (size_t i = 0; i < q->bytes; i++) ((unsigned char *) q->user)[i] = 0xdb;
	ctl().poisoned++;
	q->started = true; PMPI_Start(&q->sh);
	if (early(q)) {
		int f = 0;
		for (int k = 0; k < 60 && !f; k++) { PMPI_Test(&q->sh, &f, MPI_STATUS_IGNORE); if (!f) sched_yield(); }
		if (f) deliver(q); else ctl().missed++; // then at the first MPI call after its arrival, see poll()
	}
}
inline void poll()
{
	for (auto &p : tab()) { Req *q = p.second; int f = 0; if (!q->send && q->active && !q->delivered && early(q)) { PMPI_Test(&q->sh, &f, MPI_STATUS_IGNORE); if (f) deliver(q); } }
}
inline void wait(Req *q)
{
	if (!q->active) return;
	flush(); poll();
	if (q->send) { PMPI_Wait(&q->sh, MPI_STATUS_IGNORE); }
	else { if (!q->delivered) { PMPI_Wait(&q->sh, MPI_STATUS_IGNORE); deliver(q); } }
	q->active = false;
}
}

extern "C" {
int MPI_Send_init(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, MPI_Request *r)
{
	if (!vmpi::ctl().on) return PMPI_Send_init(b, n, d, to, tag, c, r);
	auto q = vmpi::make(true, true, (void *) b, n, d, tag, to);
	int rc = PMPI_Send_init(q->buf.data(), (int) q->bytes, MPI_BYTE, to, tag, c, &q->sh);
	*r = q->sh; vmpi::tab().push_back({*r, q}); return rc;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype d, int from, int tag, MPI_Comm c, MPI_Request *r)
{
	if (!vmpi::ctl().on) return PMPI_Recv_init(b, n, d, from, tag, c, r);
	auto q = vmpi::make(false, true, b, n, d, tag, from);
	int rc = PMPI_Recv_init(q->buf.data(), (int) q->bytes, MPI_BYTE, from, tag, c, &q->sh);
	*r = q->sh; vmpi::tab().push_back({*r, q}); return rc;
}
int MPI_Start(MPI_Request *r) { auto q = vmpi::find(*r); if (!q) return PMPI_Start(r); vmpi::poll(); vmpi::start(q); return 0; }
int MPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) MPI_Start(r + i); return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, MPI_Request *r)
{
	if (!vmpi::ctl().on) return PMPI_Isend(b, n, d, to, tag, c, r);
	MPI_Send_init(b, n, d, to, tag, c, r); vmpi::find(*r)->persistent = false; return MPI_Start(r);
}
int MPI_Irecv(void *b, int n, MPI_Datatype d, int from, int tag, MPI_Comm c, MPI_Request *r)
{
	if (!vmpi::ctl().on) return PMPI_Irecv(b, n, d, from, tag, c, r);
	MPI_Recv_init(b, n, d, from, tag, c, r); vmpi::find(*r)->persistent = false; return MPI_Start(r);
}
int MPI_Wait(MPI_Request *r, MPI_Status *s)
{
	auto q = vmpi::find(*r); if (!q) return PMPI_Wait(r, s);
	vmpi::wait(q);
	if (!q->persistent) { PMPI_Request_free(&q->sh); vmpi::drop(*r); *r = MPI_REQUEST_NULL; }
	return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { vmpi::flush(); for (int i = 0; i < n; i++) MPI_Wait(r + i, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : s + i); return 0; }
int MPI_Request_free(MPI_Request *r)
{
	auto q = vmpi::find(*r); if (!q) return PMPI_Request_free(r);
	vmpi::wait(q); // freeing an active request is legal; its message still goes
	MPI_Request k = *r; PMPI_Request_free(&q->sh); vmpi::drop(k); *r = MPI_REQUEST_NULL; return 0;
}
}
